#!/opt/venv/bin/python
"""adds the entries below to known_findings.json (run by hand, never by a check)"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
FIXED = [
    ("P02", "070e826", "parallel simulate() dropped every assertion violation"),
    ("P15", "886c33f", "after update_config(parallel=True) simulate() crashed: the remote function did not exist"),
    ("P04", "804c746", "a transition refused by the map ended the guard and assertion checks of the run"),
    ("P04", "32675da", "branches which differ only in the reset of continuous variables were merged"),
    ("P04", "22fc1dd", "assertions of agents without transitions were never checked by simulate()"),
    ("P03", "fbb3f6a", "different resets of one destination were merged into one mis-timed initial set: behaviours outside the tube"),
    ("P03", "f6a5b3e", "with a short init_seg_length, guards were not checked any more before the last initial set entered the tube"),
    ("P03", "167b022", "when guards of different variables can hold, only their joint reset was explored, never one of them alone"),
    ("P05", "c88be2a", "an assertion was checked only where its precondition held on the whole tube segment: violations missed"),
    ("P03", "2a796e5", "resets replaced variable names inside longer names (x in x2)"),
    ("P05", "3238f75", "verify() crashed on an assertion violation with unsafe_continue"),
    ("P14", "6d3f679", "verify_partitioned() started the next mode from the first rectangle of the hitting set only"),
    ("P03", "169ecec", "a contained guard whose transition the map refuses ended the exploration of the mode"),
    ("P07", "70c05fc", "trees shared the scenario's table of agents: adding an agent later changed trees already returned"),
    ("P07", "acb7d76", "simulate_multi(init_dict_list=...) put the caller's own initial states into the trees and changed them"),
    ("P07", "2915b26", "verify() put the scenario's own initial sets into the tree: changing a returned tree changed later runs"),
    ("P13", "04ec832", "load() raised on simulation trees with nodes at the depth limit"),
    ("P13", "b3248f1", "load() lost the shape of empty traces"),
    ("P16", "9d5bfad", "contains() of simulation trees compared distances the wrong way round (signed), so different trees were equal"),
    ("P16", "f8871e7", "contains() raised on verification trees with nodes at the depth limit or cut off by an assertion"),
    ("P16", "f0bfe4a", "contains() raised on verification trees whose root was not expanded (max_height=1)"),
    ("P16", "f46ba37", "contains() dropped the end of branches which start later than a sibling: trees were contained although their tubes exceed"),
    ("P09", "86c9fb3", "simulate_simple() gave several nodes the same id; dump() then lost all but one of them"),
    ("P04", "abfe86d", "an assignment which both branches of an if/else make with the same value was lost: the transition or reset never happened"),
    ("P03", "e3c8bd7", "verify() with GLOBAL bloating raised QhullError when a transition happened one step before the horizon"),
    ("P03", "2092c0c", "DRYVR_DISC computed the tube of the first of several initial rectangles only: states reachable from the others missing"),
    ("P04", "d783109", "a filter of any()/all() raised ValueError, and its names were not resolved"),
    ("P04", "7cde03d", "simulate_simple() with static parameters: ego.type never equal to any of its values, and a crash at the first transition"),
    ("P11", "94632ee", "incremental simulate(): traces of another length, step or start time reused; transitions, assertions and resets of older decision logic kept or lost"),
    ("P12", "3b8198b", "incremental verify(): tubes of another length or step reused, segments merged in another order; transitions and assertions lost or repeated after an edit"),
    ("P03", "c16a267", "the range of longitudinal positions on a circular lane was too small for sets across the angle pi: guards missed"),
    ("P05", "732045c", "on lanes of several segments, positions were computed for the segments of two corners of a set only: violations (and transitions) of other states missed"),
    ("P07", "30350f4", "trees shared the scenario's lists of uncertain parameters: changing a returned tree changed earlier and later ones"),
]
BASE = {"mh": None, "how": "set_init", "pts": 1, "npts": 8, "cseed": 1, "ahead": 1, "seed": None, "seg": 1000}
KNOWN = [
    {"id": "P03-K1", "property": "P03", "class": "escape",
     "what": "verify() stops exploring a mode at the first segment without a guard hit after one with hits: behaviours which did not take a guard that only part of the set can take (here y > 0.5) are in no tube afterwards",
     "where": "verse/analysis/verifier.py get_transition_verify_opt (elif guard_hit: break) and the truncation to max_end_idx in compute_full_reachtube_step",
     "case": dict(BASE, spec={"cont": ["x", "y"], "modes": ["A", "B"], "aux": None, "dt": 0.25, "horizon": 6.0, "agents": [
         {"id": "a0", "dyn": {"A": [[0, 1], [0, 0]], "B": [[0, -1], [0, 0]]},
          "blocks": [{"mode": "A", "guard": ["and", ["atom", {"ego.x": 1}, ">", 3.01], ["atom", {"ego.x": 1}, "<", 4.01], ["atom", {"ego.y": 1}, ">", 0.51]], "assign": [["agent_mode", "B"]], "nest": False}],
          "asserts": [], "init": [[0, 0], [0.5, 1]], "mode0": "A", "reads": False}]})},
    {"id": "P03-K2", "property": "P03", "class": "escape",
     "what": "verify() with the default init_seg_length and several agents: the initial sets of all hit segments are merged and enter the next mode at the first hit, so that an agent which switches late is in no tube joint with the other agents",
     "where": "verse/analysis/verifier.py calculate_full_bloated_tube_simple (combine_seg_length) and compute_full_reachtube_step (start time of the child)",
     "case": dict(BASE, spec={"cont": ["x"], "modes": ["A", "B"], "aux": None, "dt": 0.25, "horizon": 4.0, "agents": [
         {"id": "a0", "dyn": {"A": [[0, 1]], "B": [[0, -5]]}, "blocks": [{"mode": "A", "guard": ["atom", {"ego.x": 1}, ">", 2.01], "assign": [["agent_mode", "B"]], "nest": False}],
          "asserts": [], "init": [[0], [1]], "mode0": "A", "reads": False},
         {"id": "a1", "dyn": {"A": [[0, 1]], "B": [[0, 1]]}, "blocks": [], "asserts": [], "init": [[0], [0]], "mode0": "A", "reads": False}]})},
]

if __name__ == "__main__":
    out = [dict(k, status="known") for k in KNOWN]
    out += [{"id": "%s-F%d" % (p, i), "property": p, "status": "fixed", "line": "fixed: property=%s %s %s" % (p, c, w)} for i, (p, c, w) in enumerate(FIXED, 1)]
    json.dump(out, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
