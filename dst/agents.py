"""User code of the simulated scenarios (agents, sensor, map). Every call Verse makes into it is a
seam of the simulator."""
import numpy as np

from verse.agents.base_agent import BaseAgent
from verse.map.lane import Lane
from verse.map.lane_map import LaneMap
from verse.map.lane_segment import CircularLane, StraightLane
from verse.sensor.base_sensor import BaseSensor

from . import gen
from .core import W


class GenAgent(BaseAgent):
    def __init__(self, id, code, spec, ag):
        super().__init__(id, code=code)
        self.dyn = ag["dyn"]
        self.draws_random = bool(spec.get("draws_random"))

    def TC_simulate(self, mode, initialSet, time_horizon, time_step, map=None):
        W.seam("agent", self.id)
        m = mode[0] if not isinstance(mode, str) else mode
        init = [float(x) for x in initialSet]
        return gen.plant(self.dyn[m], init, time_horizon, time_step)


class GenSensor(BaseSensor):
    def sense(self, agent, state_dict, lane_map, simulate=True):
        W.seam("sensor", agent.id)
        return super().sense(agent, state_dict, lane_map, simulate)


class GenLane(Lane):
    """agents which leave the lane are still somewhere along and off it"""

    def get_lane_segment(self, position):
        k, seg = super().get_lane_segment(position)
        return (k, seg) if seg is not None else (0, self.segment_list[0])


class GenMap(LaneMap):
    """a map with a table for h, (track, mode, next mode) -> track, and lanes for its tracks"""

    def __init__(self, t):
        lanes = []
        for name, lane in t.get("lanes", {}).items():
            if isinstance(lane[0], list):
                segs = [StraightLane("%s_%d" % (name, k), [x, y], [x + n * ux, y + n * uy], 4) for k, (x, y, ux, uy, n) in enumerate(lane)]
                lanes.append(GenLane(name, segs))
                continue
            if len(lane) == 5:
                x, y, R, phase, d = lane
                seg = CircularLane(name + "_0", [x, y], R, phase, phase + d * 2 * np.pi, d < 0)
            else:
                o, u = np.array(lane[:2]), np.array(lane[2:])
                seg = StraightLane(name + "_0", o - gen.BEFORE * u, o + gen.BEFORE * u, 4)
            lanes.append(GenLane(name, [seg]))
        super().__init__(lanes)
        self.h_dict = {tuple(k): v for k, v in t["h"]}

    def h(self, lane_idx, agent_mode_src, agent_mode_dest):
        if not self.h_exist(lane_idx, agent_mode_src, agent_mode_dest):
            return ""
        return super().h(lane_idx, agent_mode_src, agent_mode_dest)
