"""Histories on a set of shared stages, pipelines and data: nothing a caller gave is ever modified, every run is repeatable."""
import hadar as hd
import numpy as np
import pandas as pd
from hadar.workflow.pipeline import Pipeline
from hypothesis import strategies as st
from vlib import flow, pool
from vlib.core import Sub, expect, reading, sut

ASSUMPTIONS = ["stages of the histories are deterministic (random faults are switched off)"]


@st.composite
def cases(draw):
    need = ("a", "quantity")
    tables = [flow.draw_table(draw, need=need) for _ in range(draw(st.integers(1, 3)))]
    # stages that run on any data having the columns a and quantity, and leave both
    stages = []
    for _ in range(draw(st.integers(2, 4))):
        k = draw(st.sampled_from(["clip", "repeat", "affine", "inplace", "fault", "shift", "mix", "mix", "rename", "drop"]))
        s = flow.draw_stage(draw, ["a"], free=True)
        if k == "fault":
            s = {"k": "fault", "loss": 3, "seed": draw(st.sampled_from([None, 0]))}
        elif k == "shift":
            s = {"k": "shift", "name": draw(st.sampled_from(need)), "c": draw(st.integers(1, 5))}
        elif k == "mix":
            s = {"k": "mix", "inputs": list(draw(st.sampled_from([["a"], ["quantity"], ["quantity", "a"]]))), "out": draw(st.sampled_from(["m1", "m2"])), "keep": True}
        elif k == "rename":
            s = {"k": "rename", "map": dict(draw(st.sampled_from([{"a": "r1"}, {"quantity": "r2"}, {"a": "quantity", "quantity": "a"}])))}
        elif k == "drop":
            s = {"k": "drop", "names": draw(st.sampled_from(["a", "quantity", ["a"]]))}
        stages.append(s)
    ops = []
    for i in range(draw(st.integers(4, 12))):
        k = draw(st.sampled_from(["stage", "stage", "run", "run", "link", "extend", "iadd", "shuffle", "edit"] if i else ["link", "link", "link", "stage"]))
        ops.append({"op": k, "i": draw(st.integers(0, 9)), "j": draw(st.integers(0, 9)), "t": draw(st.integers(0, 9)), "spoil": draw(st.booleans()),
                    "list": [draw(st.integers(0, 9)) for _ in range(draw(st.integers(1, 4)))], "reuse": draw(st.booleans())})
    return {"tables": tables, "stages": stages, "ops": ops}


def decide(case, rec):
    frames = [flow.frame(t) for t in case["tables"]]
    keep = [f.copy() for f in frames]
    refs = [flow.table(t) for t in case["tables"]]
    specs = case["stages"]
    objs = [sut("stage", flow.make, s) for s in specs]
    pipes = []  # (pipeline, list of specs)
    ran = shared = edits = 0

    def data_untouched(what):
        for f, k, t in zip(frames, keep, case["tables"]):
            expect(list(f.columns) == list(k.columns) and f.columns.nlevels == k.columns.nlevels, "%s modified the columns of the data: %s", what, list(f.columns))
            expect(list(f.index) == list(k.index) and f.equals(k), "%s modified the data it was given", what)

    def check_run(run, sp, t, what, spoil):
        nonlocal ran
        ref = refs[t].copy()
        for s in sp:
            ref = flow.apply(s, ref)
        if len(ref.scenarios) > 40:
            return
        out = sut(what, run, frames[t])
        flow.same_table(flow.read_frame(out, what), ref, what)
        data_untouched(what)
        if spoil:  # the caller owns the answer
            out.iloc[:, :] = -12345.0
            data_untouched("writing in the answer of " + what)
        ran += 1

    n = len(specs)
    for op in case["ops"]:
        k, t = op["op"], op["t"] % len(frames)
        i, j = op["i"] % n, op["j"] % n
        if k == "edit":  # the owner changes a timeline: later runs see it
            j = op["i"] % len(frames[t].columns)
            if op["reuse"]:
                frames[t][frames[t].columns[j]] = frames[t].iloc[:, j] + 17
            else:
                frames[t].iloc[:, j] = frames[t].iloc[:, j] + 17
            keep[t] = frames[t].copy()
            col = list(refs[t].cols)[j]
            refs[t].cols[col] = [x + 17 for x in refs[t].cols[col]]
            edits += 1
        elif k == "stage":
            check_run(objs[i], [specs[i]], t, "stage %s" % specs[i], op["spoil"])
        elif k == "link":
            ids = [x % n for x in op["list"]]
            sp = [specs[x] for x in ids]
            if flow.chain_all([flow.plug_of(s) for s in sp]) is None:
                continue
            lst = [objs[x] for x in ids]
            p = sut("Pipeline(%s)" % sp, Pipeline, lst)
            pipes.append((p, sp))
            expect(len(lst) == len(ids), "Pipeline changed the list of stages given")
            if op["reuse"]:  # the list is the caller's
                lst.append(objs[i])
            shared += len(ids) > 1
        elif k in ("extend", "iadd") and pipes:
            x = op["j"] % len(pipes)
            p, sp = pipes[x]
            sp2 = sp + [specs[i]]
            if len(sp2) > 6 or flow.chain_all([flow.plug_of(s) for s in sp2]) is None:
                continue
            if k == "extend":
                pipes.append((sut("pipeline + stage", lambda: p + objs[i]), sp2))
            else:
                q = p
                q += objs[i]
                pipes.append((q, sp2))
        elif k == "run" and pipes:
            p, sp = pipes[op["i"] % len(pipes)]
            check_run(p, sp, t, "pipeline %s" % sp, op["spoil"])
        elif k == "shuffle" and pipes:
            p, sp = pipes[op["i"] % len(pipes)]
            plug = flow.chain_all([flow.plug_of(s) for s in sp])[0]
            name = "quantity"
            if plug is not None and name not in plug[1]:
                continue
            sh = hd.Shuffler()
            full = sut("pipeline + ToShuffler", lambda: p + hd.ToShuffler(name))
            ref = refs[t].copy()
            for s in sp:
                ref = flow.apply(s, ref)
            if len(ref.scenarios) > 40:
                continue
            sut("add_pipeline", sh.add_pipeline, name="x", data=frames[t], pipeline=full)
            data_untouched("add_pipeline")
            res = sut("shuffle", sh.shuffle, 3)
            data_untouched("shuffle")
            with reading("shuffle"):
                rows = np.array([v for (_, nm), v in ref.cols.items() if nm == name], dtype=float)
                for r in np.asarray(res["x"], float):
                    expect((np.abs(rows - r) <= 1e-9 * np.maximum(1, np.abs(rows))).all(axis=1).any(), "shuffled scenario %s is not in the pipeline's output", r.tolist())
            if op["spoil"]:
                res["x"][...] = -1
                data_untouched("writing in the shuffler's answer")
    # everything still works as at first
    for i in range(n):
        check_run(objs[i], [specs[i]], 0, "stage %s at the end" % specs[i], False)
    for p, sp in pipes:
        check_run(p, sp, 0, "pipeline %s at the end" % sp, False)
    rec.nontrivial = ran >= 4 and shared >= 1
    rec.label("pipelines" if pipes else None, "several tables" if len(frames) > 1 else None, "timeline changed" if edits else None)


SUBS = [Sub("history", cases, decide, 2500, rule="a linked pipeline and at least four runs")]
