import hadar as hd
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.core import Sub, canon, expect, rejects, sut
from vlib.gen import studies, study_spec, wchoice
from vlib.model import Dense, Plan, build, dense, plan_cost, read_study, require_elements, same_content, spec_content
from vlib.synth import KINDS, Figures, rows
from checks.c06 import tol_of, walk_values
from checks.optim import shape_labels

ASSUMPTIONS = ["numbers are finite; scalars are python int or float, tables are numpy, list, pandas Series or DataFrame"]


def forms_of(spec):
    out = set()
    walk_values(spec, lambda v: out.add((v["f"], v.get("c", ""))) or v)
    return out


def densified(spec):
    n, h = spec["nb_scn"], spec["horizon"]
    return walk_values(spec, lambda v: {"f": "mat", "c": "np", "v": dense(v, n, h).tolist()})


def forms(spec, rec):
    """Every element of the study exposes the documented value at every (scenario, step), item-wise and flat."""
    study = sut("building a valid study", build, hd, spec)
    same_content(sut("reading", read_study, study), spec_content(spec), "study")
    f = forms_of(spec)
    rec.nontrivial = len({x for x, _ in f}) >= 3 and spec["nb_scn"] > 1 and spec["horizon"] > 1
    rec.label(*["%s/%s" % x for x in f])


def solve(spec, rec):
    """The optimizer and the analyzer see the same study whatever the form."""
    full = densified(spec)
    d = Dense(spec)
    out = []
    for s in (spec, full):
        study = sut("building a valid study", build, hd, s)
        p = Plan(spec, sut("solve", hd.LPOptimizer().solve, study))
        require_elements(d, p)
        fig = Figures(spec, 7)
        agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, fig.result(spec))
        tabs = {}
        for kind in KINDS:
            sel = agg.network(None).node().scn().time()
            tabs[kind] = sut("query " + kind, getattr(sel, kind))
        out.append((plan_cost(d, p), tabs))
    a, b = out
    gap = abs(a[0].sum(axis=1) - b[0].sum(axis=1)).max()
    expect(gap <= tol_of(d), "cost %s with mixed forms, %s with full tables", a[0].sum(axis=1), b[0].sum(axis=1))
    for kind in KINDS:
        x, y = a[1][kind], b[1][kind]
        expect(list(x.index) == list(y.index) and list(x.columns) == list(y.columns), "%s table differs in layout", kind)
        if len(x):
            expect(np.allclose(x.values.astype(float), y.values.astype(float), rtol=1e-12, atol=0), "%s table differs between forms", kind)
    f = forms_of(spec)
    rec.nontrivial = len({x for x, _ in f}) >= 3 and spec["nb_scn"] > 1 and spec["horizon"] > 1
    shape_labels(spec, rec)


BAD = ["text", None, "dict", "nested"]
SLOTS = ["consumption.cost", "consumption.quantity", "production.cost", "production.quantity", "storage.capacity", "storage.flow_in",
         "storage.flow_out", "storage.cost", "storage.eff", "link.cost", "link.quantity", "converter.max", "converter.cost", "to_converter.ratio"]


@st.composite
def shape_cases(draw):
    n, h = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    ndim = draw(st.sampled_from([1, 2, 2, 2, 3]))
    shape = [draw(st.integers(0, 6)) for _ in range(ndim)]
    if draw(st.integers(0, 1)) and ndim >= 2:  # near misses: transposed, one off
        shape = draw(st.sampled_from([[h, n], [n, h + 1], [n + 1, h], [1, h], [h, 1], [n + 1, 1], [1, n], [n, h, 1], [1, n, h]]))
    return {"h": h, "n": n, "slot": draw(st.sampled_from(SLOTS)), "shape": shape, "cont": draw(st.sampled_from(["np", "list", "df"])),
            "bad": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 0, "text", "none", "dict", "set", "point", "foreign"])),
            "cells": draw(st.sampled_from([0, 0, 0, 0, 0, "text", "digits", "none", "date", "object"])), "cell": draw(st.none() | st.integers(0, 35)), "fit": draw(st.booleans())}


def shapes(case, rec):
    """A table of any other shape is refused with ValueError and nothing is added."""
    n, h, shape = case["n"], case["h"], case["shape"]
    if case.get("fit") and case["cells"]:
        shape = [[h], [n, 1], [n, h]][len(shape) - 1]
    ok = tuple(shape) in ((h,), (n, 1), (n, h))
    a = np.full(shape, 0.5)
    if case.get("cells") and a.size:
        # a table whose cells, or one of them, are no numbers
        wrong = {"text": "a", "digits": "0.5", "none": None, "date": np.datetime64("2020-01-01"), "object": 0.5}[case["cells"]]
        if case["cells"] != "object":
            ok = False
        a = a.astype(object)
        if case["cell"] is None:
            a[...] = wrong
            a = np.array(a.tolist(), dtype=None if case["cells"] != "date" else "M8[D]") if case["cells"] != "object" else a
        else:
            a.flat[case["cell"] % a.size] = wrong
    v = a
    if case["cont"] == "list":
        v = a.tolist()
    elif case["cont"] == "df" and len(shape) <= 2:
        v = pd.Series(a) if len(shape) == 1 else pd.DataFrame(a)
    if case["cont"] == "list" and 0 in shape:
        shape = list(np.array(v).shape)
        ok = tuple(shape) in ((h,), (n, 1), (n, h))
    if case["bad"]:
        v = {"text": "12", "none": None, "dict": {"a": 1}, "set": {1}, "point": np.array(0.5), "foreign": None}[case["bad"]]
        if case["bad"] == "foreign":  # a figure of a study of another size
            v = hd.Study(horizon=h + 1, nb_scn=n).network().node("a").production(name="p", cost=1, quantity=[0.5] * (h + 1)).build().networks["default"].nodes["a"].productions[0].quantity
        ok = False
    study = sut("building", lambda: hd.Study(horizon=h, nb_scn=n).network().node("a").node("b").build())
    el, arg = case["slot"].split(".")
    kw = {"consumption": dict(name="x", cost=1, quantity=1), "production": dict(name="x", cost=1, quantity=1),
          "storage": dict(name="x", capacity=1, flow_in=1, flow_out=1, cost=1, eff=0.5), "link": dict(src="a", dest="b", cost=1, quantity=1),
          "converter": dict(name="x", to_network="default", to_node="b", max=1, cost=1), "to_converter": dict(name="x", ratio=1)}[el]
    kw[arg] = v
    before = canon(sut("to_json", study.to_json))
    sel = study.network().node("a")
    if ok:
        sut("%s of shape %s in a (%d,%d) study" % (case["slot"], shape, n, h), getattr(sel, el), **kw)
        expect(canon(study.to_json()) != before, "element was not added")
    else:
        rejects("%s of shape %s%s in a (%d,%d) study" % (case["slot"], shape, case["bad"] or "", n, h), getattr(sel, el), **kw)
        expect(canon(study.to_json()) == before, "refused %s left a trace in the study", case["slot"])
    rec.nontrivial = not ok
    rec.label("accepted" if ok else "refused", el)


SUBS = [
    Sub("forms", lambda: studies(big=True), forms, 3000, rule="at least 3 input forms in one study with several scenarios and steps"),
    Sub("shapes", shape_cases, shapes, 4000, rule="the value must be refused"),
    Sub("solve", lambda: studies(max_networks=2, max_nodes=3), solve, 900, rule="at least 3 input forms in one study with several scenarios and steps"),
]
