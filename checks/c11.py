import copy
import json

import hadar as hd
import numpy as np
from hadar.optimizer.domain.output import Result
from hypothesis import strategies as st
from vlib.core import Sub, canon, expect, reading, sut
from vlib.gen import studies, study_spec
from vlib.model import Dense, Plan, build, require_elements
from vlib.synth import KINDS, Figures
from checks.optim import shape_labels

ASSUMPTIONS = ["network and node names do not contain '::' (see known_findings.json)"]


def same_plan(a, b, what):
    for kind in ("cons", "prod", "link"):
        x, y = getattr(a, kind), getattr(b, kind)
        expect(list(x) == list(y), "%s: elements %s instead of %s", what, list(x), list(y))
        for k in x:
            expect(np.array_equal(x[k], y[k]), "%s: figures of %s changed", what, k)
    expect(list(a.stor) == list(b.stor), "%s: storages %s instead of %s", what, list(a.stor), list(b.stor))
    for k in a.stor:
        for f in a.stor[k]:
            expect(np.array_equal(a.stor[k][f], b.stor[k][f]), "%s: %s of storage %s changed", what, f, k)
    expect(list(a.conv) == list(b.conv), "%s: converters %s instead of %s", what, list(a.conv), list(b.conv))
    for k in a.conv:
        expect(np.array_equal(a.conv[k]["dest"], b.conv[k]["dest"]), "%s: output of converter %s changed", what, k)
        expect(list(a.conv[k]["src"]) == list(b.conv[k]["src"]), "%s: sources of converter %s", what, k)
        for s in a.conv[k]["src"]:
            expect(np.array_equal(a.conv[k]["src"][s], b.conv[k]["src"][s]), "%s: source %s of converter %s changed", what, s, k)


def timings(result):
    with reading("timings"):
        b = result.benchmark
        return list(b.modeler), list(b.solver), b.mapper, b.total


def check(spec, result, how, times):
    want = Plan(spec, result)
    bench = timings(result)
    for i in range(times):
        j = sut("to_json", result.to_json)
        if how == "text":
            j = json.loads(sut("json.dumps(to_json())", json.dumps, j))
        keep = copy.deepcopy(j)
        back = sut("from_json", Result.from_json, j)
        expect(j == keep, "from_json modified the dictionary it was given")
        again = sut("from_json (same dictionary again)", Result.from_json, j)
        same_plan(want, Plan(spec, back), "result read back")
        same_plan(want, Plan(spec, again), "result read back twice")
        same_plan(want, Plan(spec, result), "original result after the trip")
        expect(canon(sut("to_json", back.to_json)) == canon(j), "serializing again gives another document")
        b2 = timings(back)
        expect(b2 == bench, "timings %s became %s", bench, b2)
        result = back
    return result


def synthetic(case, rec):
    from hadar.optimizer.domain.output import Benchmark

    spec = case["study"]
    result = Figures(spec, case["figures"]).result(spec)
    if case["bench"]:
        given = (case["bench"], [x + 1 for x in case["bench"]], case["bench"][0], sum(case["bench"]))
        result.benchmark = sut("Benchmark", Benchmark, modeler=given[0], solver=given[1], mapper=given[2], total=given[3])
        expect(timings(result) == given, "timings %s recorded as %s", given, timings(result))
    else:
        expect(timings(result) == ([], [], 0, 0), "a result without timings has %s", timings(result))
    study = sut("building a valid study", build, hd, spec)
    back = check(spec, result, case["how"], case["times"])
    # the analyzer accepts the copy and reports the same
    a, b = sut("ResultAnalyzer", hd.ResultAnalyzer, study, result), sut("ResultAnalyzer on the copy", hd.ResultAnalyzer, study, back)
    for kind in KINDS:
        x, y = sut("query", getattr(a.network(None).node().scn().time(), kind)), sut("query", getattr(b.network(None).node().scn().time(), kind))
        expect(x.equals(y), "%s table differs after the trip", kind)
    rec.nontrivial = len(spec["converters"]) > 0 or any(nd["storages"] for net in spec["networks"] for nd in net["nodes"])
    shape_labels(spec, rec)


def solved(spec, rec):
    study = sut("building a valid study", build, hd, spec)
    result = sut("solve", hd.LPOptimizer().solve, study)
    check(spec, result, "text", 1)
    require_elements(Dense(spec), Plan(spec, result))
    rec.nontrivial = len(spec["converters"]) > 0 or any(nd["storages"] for net in spec["networks"] for nd in net["nodes"])
    shape_labels(spec, rec)


@st.composite
def cases(draw):
    return {"study": study_spec(draw, big=True, containers=False), "figures": draw(st.integers(0, 10 ** 6)), "how": draw(st.sampled_from(["text", "dict"])),
            "times": draw(st.integers(1, 2)), "bench": draw(st.lists(st.integers(0, 1000), max_size=3))}


SUBS = [
    Sub("synthetic", cases, synthetic, 1500, rule="the result has a storage or a converter"),
    Sub("solved", lambda: studies(max_networks=2, max_nodes=3), solved, 1000, rule="the result has a storage or a converter"),
]
