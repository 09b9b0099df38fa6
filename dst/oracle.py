"""Reference runs in a pristine process: an interpreter of its own (with another hash seed) which
forks once per request, so that no earlier run of this or any other scenario can have an influence."""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
_srv = {}


def _send(f, obj):
    d = pickle.dumps(obj)
    f.write(struct.pack("<I", len(d)))
    f.write(d)
    f.flush()


def _recv(f):
    h = f.read(4)
    if len(h) < 4:
        raise EOFError
    return pickle.loads(f.read(struct.unpack("<I", h)[0]))


def start():
    pid = os.getpid()
    if pid not in _srv:
        env = dict(os.environ, PYTHONHASHSEED=str(pid % 4000000 + 1))
        _srv.clear()
        _srv[pid] = subprocess.Popen([sys.executable, "-m", "dst.oracle"], cwd=os.path.dirname(HERE), env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _recv(_srv[pid].stdout)
    return _srv[pid]


def stop():
    p = _srv.pop(os.getpid(), None)
    if p:
        p.stdin.close()
        p.wait()


def ask(req):
    p = start()
    _send(p.stdin, req)
    return _recv(p.stdout)


def main():
    fin, fout = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_RDWR), 1)
    from . import boot, hist

    sys.stdout = boot.Null()
    _send(fout, "ready")
    while True:
        try:
            req = _recv(fin)
        except EOFError:
            return
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                try:
                    _send(f, hist.fresh(req))
                except BaseException as e:
                    _send(f, ("error", repr(e)))
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            try:
                ans = _recv(f)
            except EOFError:
                ans = ("error", "oracle died")
        os.waitpid(pid, 0)
        _send(fout, ans)


if __name__ == "__main__":
    main()
