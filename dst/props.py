"""The properties, one object each. A Prop generates cases from a PRNG, runs one case in the
simulated world and says whether the property held on it."""
from . import p_equiv, p_hist, p_inc, p_sem, p_tree, p_verify

PROPS = {}
for mod in (p_equiv, p_sem, p_verify, p_hist, p_inc, p_tree):
    for p in mod.PROPS:
        PROPS[p.id] = p
