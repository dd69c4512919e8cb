"""Plug arithmetic, acceptance of links, and pipelines that do not disturb their parts."""
import hadar as hd
import numpy as np
import pandas as pd
from hadar.workflow.pipeline import FreePlug, Pipeline, RestrictedPlug, Stage
from hypothesis import strategies as st
from vlib import flow
from vlib.core import Sub, expect, reading, rejects, sut

ASSUMPTIONS = ["column names inside one plug are distinct"]

NAMES = ["a", "b", "c", "to_shuffler", "d", "ab", "not_to_shuffler"]  # some are parts of others
LIBRARY = ["a", "b", "quantity", "x y", "x", "ab"]


class Probe(Stage):
    """Needs its inputs, gives its outputs: consumes inputs that are not outputs, adds outputs."""

    def __init__(self, plug):
        # nothing needed or given: left out, as in the documentation
        args = {k: list(v) for k, v in zip(("inputs", "outputs"), plug or ()) if v}
        Stage.__init__(self, FreePlug() if plug is None else RestrictedPlug(**args))
        self.spec = plug

    def _process_timeline(self, timeline):
        if self.spec is None:
            return timeline
        ins, outs = self.spec
        keep = {c: timeline[c] for c in timeline.columns if c[1] not in ins}
        for scn in dict.fromkeys(c[0] for c in timeline.columns):
            for o in outs:
                keep[scn, o] = sum([timeline[scn, i] for i in ins], 0.0) + pd.Series(1.0, index=timeline.index)
        out = pd.DataFrame(keep)
        out.columns = pd.MultiIndex.from_tuples(list(keep))
        return out


def some(draw):
    return list(draw(st.permutations(NAMES)))[: draw(st.integers(0, 3))]


def draw_plug(draw, prev=None):
    if draw(st.integers(0, 4)) == 0:
        return None
    ins = some(draw)
    if prev is not None and draw(st.integers(0, 3)):  # usually linkable
        ins = [e for e in prev[1] if draw(st.booleans())]
    outs = some(draw)
    return [ins, outs]


@st.composite
def cases(draw):
    plugs, acc = [], None
    for i in range(draw(st.integers(2, 5))):
        p = draw_plug(draw, acc)
        plugs.append(p)
        if i == 0:
            acc = p
        else:
            c = flow.chain(acc, p)
            acc = c[0] if c else acc
    return {"plugs": plugs, "how": draw(st.sampled_from(["list", "add", "iadd"])), "data": some(draw), "full": draw(st.booleans()),
            "junk": draw(st.sampled_from([None, 0, "stage", []]))}


def sets(p):
    return (set(), set(), True) if p is None else (set(p[0]), set(p[1]), False)


def read_plug(p):
    with reading("plug"):
        return (list(p.inputs), list(p.outputs), isinstance(p, FreePlug))


def decide(case, rec):
    plugs = [None if p is None else (list(p[0]), list(p[1])) for p in case["plugs"]]
    objs = [Probe(p) for p in plugs]
    fresh = [read_plug(o.plug) for o in objs]

    def untouched(what):
        for o, f in zip(objs, fresh):
            expect(read_plug(o.plug) == f, "%s changed the plug of a stage: %s became %s", what, f, read_plug(o.plug))

    # plug level rules, pair by pair
    for i in range(len(plugs) - 1):
        a, b = plugs[i], plugs[i + 1]
        want = flow.chain(a, b)
        got = sut("linkable_to", objs[i].plug.linkable_to, objs[i + 1].plug)
        expect(bool(got) == (want is not None), "%s linkable to %s: %s", a, b, got)
        if want is not None:
            s = sut("plug + plug", lambda: objs[i].plug + objs[i + 1].plug)
            gi, go, free = read_plug(s)
            expect((set(gi), set(go), free) == sets(want[0]), "%s + %s = %s", a, b, s)
            expect(len(set(go)) == len(go), "%s + %s lists an output twice: %s", a, b, go)
            untouched("adding plugs")
    # whole pipeline
    want = flow.chain_all(plugs)
    if want is None:
        rejects("pipeline %s" % plugs, flow.build_pipeline, objs, case["how"])
        untouched("a refused pipeline")
        rec.label("refused")
        rec.nontrivial = len(plugs) > 2
        return
    pipe = sut("pipeline %s" % plugs, flow.build_pipeline, objs, case["how"])
    untouched("building a pipeline")
    gi, go, free = read_plug(pipe.plug)
    expect((set(gi), set(go), free) == sets(want[0]), "pipeline %s exposes %s, expected %s", plugs, pipe.plug, want[0])
    expect(len(pipe.stages) == len(objs), "pipeline of %d stages has %d", len(objs), len(pipe.stages))
    # data is accepted exactly when it has the mandatory columns
    need = [] if want[0] is None else want[0][0]
    names = list(dict.fromkeys((need if case["full"] else []) + case["data"] + ["z"]))
    # free stages may hide a need only known while running: keep to data on which every stage can run
    df = pd.DataFrame({n: [1.0, 2.0] for n in names})
    if all(n in names for n in need):
        out = sut("running on %s" % names, pipe, df)
        with reading("pipeline output"):
            have = {c[1] for c in out.columns}
        missing = set(go) - have
        expect(not missing, "pipeline %s announces %s but gives %s", plugs, go, have)
        rec.label("ran")
    else:
        rejects("running %s on columns %s" % (plugs, names), pipe, df)
        rec.label("data refused")
    untouched("running a pipeline")
    # extending gives a new pipeline and leaves the first one alone
    extra = Probe(None)
    before = (read_plug(pipe.plug), len(pipe.stages))
    longer = sut("pipeline + stage", lambda: pipe + extra)
    expect(len(longer.stages) == len(objs) + 1, "extended pipeline has %d stages", len(longer.stages))
    expect((read_plug(pipe.plug), len(pipe.stages)) == before, "pipeline + stage modified the pipeline")
    bad = Probe((["nowhere"], ["a"]))
    if not free:
        rejects("adding a stage whose input is missing", lambda: pipe + bad)
    rejects("pipeline + %r" % (case["junk"],), lambda: pipe + case["junk"])
    rejects("stage + %r" % (case["junk"],), lambda: objs[0] + case["junk"])
    expect((read_plug(pipe.plug), len(pipe.stages)) == before, "a refused addition modified the pipeline")
    untouched("extending a pipeline")
    # shuffler wants a pipeline which gives its column
    from hadar.workflow.pipeline import TO_SHUFFLER

    sh = hd.Shuffler()
    ends = TO_SHUFFLER in go
    full = pd.DataFrame({n: [1.0, 2.0] for n in dict.fromkeys(need + ["z"])})
    if ends:
        sut("add_pipeline of %s" % plugs, sh.add_pipeline, name="x", data=full, pipeline=pipe)
        rec.label("gives the shuffler column")
    else:
        rejects("add_pipeline of %s" % plugs, sh.add_pipeline, name="x", data=full, pipeline=pipe)
    if go:
        ok = pipe
        if not ends:
            ok = sut("+ ToShuffler", lambda: pipe + hd.ToShuffler(go[0]))
            sut("add_pipeline", sh.add_pipeline, name="x", data=full, pipeline=ok)
        ok = sut("+ free stage", lambda: ok + Probe(None))
        sut("add_pipeline", sh.add_pipeline, name="y", data=full, pipeline=ok)
        gone = sut("+ Drop", lambda: ok + hd.Drop(TO_SHUFFLER))
        rejects("add_pipeline of a pipeline that dropped the shuffler column", hd.Shuffler().add_pipeline, name="x", data=full, pipeline=gone)
        if need:
            rejects("add_pipeline on data without %s" % need, hd.Shuffler().add_pipeline, name="x", data=full.drop(columns=need[:1]), pipeline=ok)
    rec.nontrivial = len(plugs) > 2 and want[0] is not None
    rec.label("linked")


@st.composite
def library_cases(draw):
    names = list(draw(st.permutations(LIBRARY)))[: draw(st.integers(1, 4))]
    if "quantity" not in names and draw(st.booleans()):
        names[0] = "quantity"
    s = flow.draw_stage(draw, names)
    before = list(draw(st.permutations(LIBRARY)))[: draw(st.integers(0, 4))]
    return {"stage": s, "before": before, "data": list(draw(st.permutations(LIBRARY + ["z"])))[: draw(st.integers(1, 5))],
            "scn": draw(st.sampled_from([None, [0], [0, 1], [4, 2]]))}


def library(case, rec):
    """The stages hadar comes with ask for what they need."""
    s = case["stage"]
    stage = sut("stage %s" % s, flow.make, s)
    want = flow.plug_of(s)
    gi, go, free = read_plug(stage.plug)
    expect((set(gi), set(go), free) == sets(want), "stage %s announces %s -> %s", s, gi, go)
    need = [] if want is None else want[0]
    # after another stage
    first = Probe(([], case["before"]))
    if all(e in case["before"] for e in need):
        sut("%s + %s" % (case["before"], s), lambda: first + stage)
        rec.label("linked")
    else:
        rejects("linking %s after outputs %s" % (s, case["before"]), lambda: first + stage)
        rejects("Pipeline of the same", lambda: Pipeline(stages=[first, stage]))
        rec.label("link refused")
    # on data, alone and in a pipeline
    names = case["data"]
    cols = names if case["scn"] is None else pd.MultiIndex.from_tuples([(q, x) for q in case["scn"] for x in names])
    df = pd.DataFrame(np.ones((3, len(cols))), columns=cols)
    for what, f in (("stage", stage), ("pipeline", sut("pipeline", lambda: Pipeline(stages=[stage]))), ("pipeline", sut("pipeline", lambda: Probe(None) + stage))):
        if all(e in names for e in need):
            if not (s["k"] == "drop" and set(need) >= set(names)):
                sut("%s %s on %s" % (what, s, names), f, df)
            rec.label("ran")
        else:
            rejects("%s %s on columns %s" % (what, s, names), f, df)
            rec.label("data refused")
    rec.nontrivial = want is not None


SUBS = [Sub("library", library_cases, library, 1500, rule="a stage that needs columns"), Sub("plugs", cases, decide, 4000, rule="3 stages or more, not all of them free")]
