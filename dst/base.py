from . import util

REAL = ["verse.scenario", "verse.analysis (simulator, verifier, incremental, analysis_tree, dryvr, utils)", "verse.parser",
        "verse.sensor.BaseSensor", "verse.map.LaneMap", "verse.agents.BaseAgent", "z3"]
STUB = ["ray: in-process deterministic cluster (dst/fakeray.py)",
        "user code: generated agents with closed-form dynamics, generated decision logic, sensor wrapper around BaseSensor"]


class Prop:
    level = "exploration"
    rule = ""
    measure = ""
    real = REAL
    stub = STUB
    assumptions = []
    quick_n = 200
    uses_oracle = False

    def gen(self, r, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def shrink(self, case):
        return util.shrink_case(case)

    def known(self, case, viol, known):
        """the known finding this violation is an instance of, if any"""
        return None
