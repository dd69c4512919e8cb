import copy
import time

import hadar as hd
import numpy as np
from vlib.core import Sub, expect, reading, sut
from vlib.gen import studies
from vlib.model import build, dense
from checks.optim import shape_labels

ASSUMPTIONS = ["durations compared with the harness clock, ten seconds of slack for clock adjustments"]
SLACK = 10.0


def similar(case):
    """Same structure, consumptions halved"""
    out = copy.deepcopy(case)
    for net in out["networks"]:
        for nd in net["nodes"]:
            for c in nd["consumptions"]:
                c["quantity"] = {"f": "mat", "c": "np", "v": (dense(c["quantity"], case["nb_scn"], case["horizon"]) / 2).tolist()}
    return out


def decide(case, rec):
    study = sut("building a valid study", build, hd, case)
    start = time.monotonic()
    result = sut("solve", hd.LPOptimizer().solve, study)
    took = time.monotonic() - start
    n, h = case["nb_scn"], case["horizon"]
    arrays = []

    def arr(x, what):
        a = np.asarray(x)
        expect(a.shape == (n, h), "%s has shape %s, expected %s", what, a.shape, (n, h))
        expect(a.dtype.kind == "f" and np.isfinite(a).all(), "%s is not a finite number everywhere", what)
        arrays.append(x)

    count = 0
    with reading("result"):
        expect(list(result.networks) == [x["name"] for x in case["networks"]], "networks %s", list(result.networks))
        for net in case["networks"]:
            o = result.networks[net["name"]]
            expect(list(o.nodes) == [x["name"] for x in net["nodes"]], "nodes of %s: %s", net["name"], list(o.nodes))
            for nd in net["nodes"]:
                on = o.nodes[nd["name"]]
                for kind in ("consumptions", "productions", "storages"):
                    got = [x.name for x in getattr(on, kind)]
                    want = [x["name"] for x in nd[kind]]
                    expect(got == want, "%s of node %s/%s: %s instead of %s", kind, net["name"], nd["name"], got, want)
                    count += len(got)
                got = [x.dest for x in on.links]
                want = [l["dest"] for l in net["links"] if l["src"] == nd["name"]]
                expect(got == want, "links of node %s/%s: %s instead of %s", net["name"], nd["name"], got, want)
                count += len(got)
                for x in list(on.consumptions) + list(on.productions) + list(on.links):
                    arr(x.quantity, "quantity")
                for x in on.storages:
                    arr(x.capacity, "storage level")
                    arr(x.flow_in, "storage flow in")
                    arr(x.flow_out, "storage flow out")
        # converters are declared when first mentioned
        expect(list(result.converters) == [v["name"] for v in case["converters"]], "converters %s", list(result.converters))
        for v in case["converters"]:
            o = result.converters[v["name"]]
            expect(o.name == v["name"], "converter name %s", o.name)
            expect([tuple(k) for k in o.flow_src] == [(s["network"], s["node"]) for s in v["src"]], "sources of %s: %s",
                   v["name"], list(o.flow_src))
            for a in o.flow_src.values():
                arr(a, "converter source flow")
            arr(o.flow_dest, "converter output flow")
            count += 1
        b = result.benchmark
        for what, times in (("modelling", b.modeler), ("solving", b.solver)):
            expect(len(times) == n, "%d %s times for %d scenarios", len(times), what, n)
            expect(all(np.isfinite(x) for x in times), "%s times %s", what, times)
            expect(all(-SLACK <= x <= took + SLACK for x in times), "%s times %s of a call that took %.3f s", what, times, took)
        expect(np.isfinite(b.mapper) and np.isfinite(b.total), "mapping time %s of a total of %s", b.mapper, b.total)
        expect(-SLACK <= b.mapper <= took + SLACK and -SLACK <= b.total <= took + SLACK, "mapping time %s, total %s of a call that took %.3f s", b.mapper, b.total, took)
        # figures of different elements are stored apart: writing one never changes another
        for i in range(len(arrays)):
            for j in range(i):
                expect(not np.shares_memory(arrays[i], arrays[j]), "two elements of the result share their figures")
        # a result is not touched by later solves of the same or a similar study
        seen = [np.array(a) for a in arrays]
        sut("solve (again)", hd.LPOptimizer().solve, study)
        sut("solve (similar)", hd.LPOptimizer().solve, sut("building a valid study", build, hd, similar(case)))
        expect(all(np.array_equal(x, y) for x, y in zip(arrays, seen)), "a later solve changed the figures of an earlier result")
    rec.nontrivial = count >= 3
    shape_labels(case, rec)


SUBS = [Sub("mirror", lambda: studies(big=True), decide, 3000, rule="the study has at least 3 elements")]
