"""Canonical, comparable forms of analysis trees."""
import numpy as np


def num(x):
    """nested containers of numbers / strings -> nested tuples of exact values"""
    if isinstance(x, np.ndarray):
        return tuple(num(v) for v in x.tolist()) if x.ndim else num(x.item())
    if isinstance(x, (list, tuple)):
        return tuple(num(v) for v in x)
    if isinstance(x, (np.floating, float)):
        return float(x)
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return float(x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), num(v)) for k, v in x.items()))
    return x


def hits(n):
    h = n.assert_hits
    if not h:
        return ()
    if isinstance(h, tuple):  # (asserts, index)
        h = h[0]
    if not h:
        return ()
    return tuple(sorted((k, tuple(v) if not isinstance(v, str) else (v,)) for k, v in h.items()))


def node(n, traces=True):
    return (
        tuple(sorted((k, num(v)) for k, v in n.mode.items())),
        tuple(sorted((k, num(v)) for k, v in n.init.items())),
        float(n.start_time),
        int(n.height),
        hits(n),
        tuple(sorted((k, num(v)) for k, v in n.trace.items())) if traces else (),
        str(n.type),
        tuple(sorted(n.agent)),
        tuple(sorted((k, num(v)) for k, v in n.static.items())),
        tuple(sorted((k, num(v)) for k, v in n.uncertain_param.items())),
    )


def tree(root, ordered=False, traces=True):
    kids = [tree(c, ordered, traces) for c in root.child]
    if not ordered:
        kids.sort(key=repr)
    return (node(root, traces), tuple(kids))


def diff(a, b, path="root"):
    """first difference of two canonical trees, as text"""
    names = ["mode", "init", "start_time", "height", "assert_hits", "trace", "type", "agents", "static", "uncertain_param"]
    for nme, x, y in zip(names, a[0], b[0]):
        if x != y:
            return "%s.%s: %.300r != %.300r" % (path, nme, x, y)
    if len(a[1]) != len(b[1]):
        return "%s: %d children != %d children (%.200r / %.200r)" % (
            path, len(a[1]), len(b[1]), [c[0][0] for c in a[1]], [c[0][0] for c in b[1]])
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        d = diff(x, y, "%s.%d" % (path, i))
        if d:
            return d
    return None


def near(x, y, tol):
    if isinstance(x, tuple):
        return isinstance(y, tuple) and len(x) == len(y) and all(near(p, q, tol) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) <= tol * max(1.0, abs(x))
    return x == y


def similar(a, b, tol, path="root"):
    """as diff(), up to rounding and the order of siblings"""
    if not near(a[0], b[0], tol):
        return diff(a, b, path) or "%s differs" % path
    if len(a[1]) != len(b[1]):
        return diff((a[0], a[1]), (a[0], b[1]), path)
    rest = list(b[1])
    for i, x in enumerate(a[1]):
        ds = [similar(x, y, tol, "%s.%d" % (path, i)) for y in rest]
        if None not in ds:
            return ds[0]
        rest.pop(ds.index(None))
    return None
