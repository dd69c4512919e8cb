import hadar as hd
import numpy as np
from hypothesis import strategies as st
from vlib import flow
from vlib.core import Sub, expect, sut

ASSUMPTIONS = ["column names are unique per scenario, every scenario has the same names; random faults are switched off (occurrence 0)"]


@st.composite
def cases(draw):
    t = flow.draw_table(draw)
    return {"table": t, "stages": flow.draw_pipeline(draw, t), "how": draw(st.sampled_from(["list", "add", "iadd"]))}


def composition(case, rec):
    t, stages = case["table"], case["stages"]
    objs = [sut("stage %s" % s, flow.make, s) for s in stages]
    pipe = sut("building pipeline %s" % stages, flow.build_pipeline, objs, case["how"])
    ref = flow.table(t)
    for s in stages:
        ref = flow.apply(s, ref)
    got = sut("running %s" % stages, pipe, flow.frame(t))
    flow.same_table(flow.read_frame(got, "pipeline output"), ref, "pipeline %s" % stages)
    want = flow.frame(t).index.name
    expect(got.index.name == want, "pipeline %s: time index named %r instead of %r", stages, got.index.name, want)
    # by hand, stage after stage
    df = flow.frame(t)
    step = flow.table(t)
    for s in stages:
        df = sut("stage %s" % s, flow.make(s), df)
        step = flow.apply(s, step)
        flow.same_table(flow.read_frame(df, "stage output"), step, "stage %s" % s)
    rec.nontrivial = len(stages) >= 2 and t["h"] > 1 and len(ref.cols) > 1
    rec.label(*["stage " + s["k"] for s in stages])
    rec.label("single level columns" if t["scn"] is None else None, "index " + t["index"], "name-major" if t["layout"] == "name" else None)


SUBS = [Sub("composition", cases, composition, 8000, rule="at least 2 stages, 2 steps and 2 output columns")]
