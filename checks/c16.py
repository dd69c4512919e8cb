"""Histories of calls on one analyzer: every answer equals the answer of a fresh analyzer; nothing given is modified."""
import hadar as hd
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import decoy
from vlib.core import Sub, canon, expect, reading, sut
from vlib.gen import study_spec
from vlib.model import Dense, Plan, build, read_study, same_content, spec_content
from vlib.synth import Figures
from checks.c11 import same_plan
from checks.c14 import check as costs_of
from checks.c13 import as_arg, check_query, draw_query
from checks.optim import shape_labels

ASSUMPTIONS = ["results are synthetic (distinct figures)"]


@st.composite
def cases(draw):
    spec = study_spec(draw, max_networks=2, max_nodes=3, dense=True, containers=False)
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(["query", "query", "query", "branch", "branch", "cost", "rac", "balance", "elements", "nodes"]))
        op = {"op": k, "spoil": draw(st.booleans()), "net": draw(st.integers(0, 3)), "node": draw(st.integers(0, 3)), "level": draw(st.integers(0, 2))}
        if k == "query":
            op["q"] = draw_query(draw, spec)
        if k == "branch":
            op["q"] = draw_query(draw, spec)
            op["q2"] = draw_query(draw, spec)
            op["depth"] = draw(st.integers(0, 3))
            op["again"] = draw(st.booleans())
        ops.append(op)
    return {"study": spec, "figures": draw(st.integers(0, 10 ** 6)), "ops": ops}


def spoil(x):
    """What a careless caller might do with an answer."""
    if isinstance(x, pd.DataFrame):
        if x.size:
            x.iloc[:, :] = -1.0
    elif isinstance(x, pd.Series):
        x.iloc[:] = -1.0
    elif isinstance(x, np.ndarray) and x.size:
        x[...] = -1
    elif isinstance(x, list):
        x.clear()


def same(a, b):
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return type(a) is type(b) and a.equals(b)
    return np.array_equal(np.asarray(a), np.asarray(b))


def walk(sel, q, steps):
    for step in steps:
        name = q["kind"] if step == "element" else step
        f = as_arg(q[step])
        sel = getattr(sel, name)() if f is None else getattr(sel, name)(f)
    return sel


def decide(case, rec):
    spec = case["study"]
    d, fig = Dense(spec), Figures(spec, case["figures"])
    study = sut("building a valid study", build, hd, spec)
    result = fig.result(spec)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, result)
    kinds = set()
    for op in case["ops"]:
        net = spec["networks"][op["net"] % len(spec["networks"])]
        node = net["nodes"][op["node"] % len(net["nodes"])]["name"]
        nn = net["name"]
        fresh = sut("ResultAnalyzer", hd.ResultAnalyzer, study, result)
        if (case["figures"] + op["net"]) % 3 == 0:
            decoy.analyzer()
        k = op["op"]
        kinds.add(k)
        if k == "query":
            f = lambda a: walk(a.network(op["q"]["network"]), op["q"], op["q"]["order"])
        elif k == "branch":
            # a partial query, finished in two different ways, possibly finished twice
            q = op["q"]
            head, tail = q["order"][: op["depth"]], q["order"][op["depth"]:]
            q2 = dict(op["q2"], kind=q["kind"] if "element" in head else op["q2"]["kind"])
            tail2 = [s for s in op["q2"]["order"] if s not in head]
            if "element" not in head and q2["kind"] != q["kind"]:
                q2 = op["q2"]
            elif q2["kind"] != op["q2"]["kind"]:
                q2["element"] = None
            part = sut("partial query", walk, agg.network(q["network"]), q, head)
            got1 = sut("first branch", walk, part, q, tail)
            got2 = sut("second branch of the same partial query", walk, part, q2, tail2)
            got3 = sut("first branch again", walk, part, q, tail) if op["again"] else None
            w1 = walk(walk(fresh.network(q["network"]), q, head), q, tail)
            w2 = walk(walk(fresh.network(q["network"]), q, head), q2, tail2)
            expect(same(got1, w1), "branch 1 of %s: differs from the same query asked at once", q)
            expect(same(got2, w2), "branch 2 (%s) of partial query %s: differs from the same query asked at once", q2, q)
            expect(got3 is None or same(got3, w1), "finishing the partial query %s twice gives two answers", q)
            if op["spoil"]:
                spoil(got1), spoil(got2)
            continue
        elif k == "cost":
            which = [dict(), dict(network=nn), dict(node=node, network=nn)][op.get("level", op["node"] % 3)]
            f = lambda a: a.get_cost(**which)
        elif k == "rac":
            f = lambda a: a.get_rac(network=nn)
        elif k == "balance":
            f = lambda a: a.get_balance(node=node, network=nn)
        elif k == "elements":
            f = lambda a: a.get_elements_inside(node=node, network=nn)
        else:
            f = lambda a: a.nodes(nn)
        got, want = sut(k, f, agg), sut(k, f, fresh)
        expect(same(got, want), "%s after other calls differs from a fresh analyzer: %s / %s", op, got, want)
        if op["spoil"]:
            spoil(got)
    if case["figures"] % 2 == 0:  # every cost once more
        costs_of(agg, d, fig)
    same_content(read_study(study), spec_content(spec), "study after analysis")
    same_plan(Plan(spec, fig.result(spec)), Plan(spec, result), "result after analysis")
    rec.nontrivial = len(kinds) >= 2
    rec.label(*sorted(kinds))


SUBS = [Sub("history", cases, decide, 1500, rule="at least two kinds of calls")]
