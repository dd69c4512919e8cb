"""Common parts of the optimizer checks."""
import hadar as hd
from hypothesis import strategies as st
from vlib import pool
from vlib.core import sut
from vlib.gen import study_spec
from vlib.model import Dense, Plan, build, require_elements


class Refused(Exception):
    """A study that may have no plan was refused."""


def judged(f):
    def decide(case, rec):
        try:
            f(case, rec)
        except Refused:
            rec.label("refused: no plan")
        else:
            rec.label("shrinking storage solved" if case.get("loose") else None)
    return decide


def loose(draw, **k):
    """One study in four is not known to have a plan: refusing it is allowed there, any plan returned is judged."""
    free = draw(st.integers(0, 3)) == 3
    spec = study_spec(draw, feasible=not free, **k)
    return {**spec, "loose": True} if free else spec


@st.composite
def any_studies(draw, **k):
    return loose(draw, **k)


def solve(spec, real_pool=False):
    """Build and solve through the public API; returns (dense study, plan, study, result)."""
    study = sut("building a valid study", build, hd, spec)
    if spec.get("loose"):
        try:
            result = hd.LPOptimizer().solve(study)
        except Exception:
            raise Refused()
    elif real_pool:
        with pool.real():
            result = sut("solve", hd.LPOptimizer().solve, study)
    else:
        result = sut("solve", hd.LPOptimizer().solve, study)
    d = Dense(spec)
    p = Plan(spec, result)
    require_elements(d, p)
    return d, p, study, result


def shape_labels(spec, rec):
    nodes = [nd for net in spec["networks"] for nd in net["nodes"]]
    rec.label(
        "scn>1" if spec["nb_scn"] > 1 else None,
        "h>2" if spec["horizon"] > 2 else None,
        "h>=12" if spec["horizon"] >= 12 else None,
        "h>=48" if spec["horizon"] >= 48 else None,
        "scn>=12" if spec["nb_scn"] >= 12 else None,
        "nodes>=5 in a network" if any(len(net["nodes"]) >= 5 for net in spec["networks"]) else None,
        "networks>1" if len(spec["networks"]) > 1 else None,
        "links" if any(net["links"] for net in spec["networks"]) else None,
        "links>=3" if any(len(net["links"]) >= 3 for net in spec["networks"]) else None,
        "storage" if any(nd["storages"] for nd in nodes) else None,
        "storages>1 on a node" if any(len(nd["storages"]) > 1 for nd in nodes) else None,
        "converter" if spec["converters"] else None,
        "converters>1" if len(spec["converters"]) > 1 else None,
        "multi-source converter" if any(len(v["src"]) > 1 for v in spec["converters"]) else None,
    )
