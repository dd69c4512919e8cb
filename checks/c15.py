import hadar as hd
import numpy as np
from hypothesis import strategies as st
from vlib import decoy
from vlib.core import Sub, expect, reading, sut
from vlib.gen import study_spec
from vlib.model import Dense, build
from vlib.synth import Figures
from checks.c14 import close
from checks.optim import shape_labels

ASSUMPTIONS = ["results are synthetic (distinct figures); compared within 1e-9 relative"]


def decide(case, rec):
    spec = case["study"]
    d, fig = Dense(spec), Figures(spec, case["figures"])
    study = sut("building a valid study", build, hd, spec)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, fig.result(spec))
    if case["figures"] % 3 == 0:
        decoy.analyzer()
    zero = np.zeros((d.n, d.h))
    tol = 1e-9 * max(10.0, d.scale)
    expect(agg.horizon == d.h and agg.nb_scn == d.n, "horizon/nb_scn are %s/%s", agg.horizon, agg.nb_scn)
    busy = 0
    total = np.zeros(6)
    for net in spec["networks"]:
        nn = net["name"]
        names = [nd["name"] for nd in net["nodes"]]
        got = sut("nodes", agg.nodes, nn)
        expect(list(got) == names, "nodes of %s: %s instead of %s", nn, got, names)
        rac = zero.copy()
        sub = np.zeros(6)
        for nd in net["nodes"]:
            k = (nn, nd["name"])
            bal = zero.copy()
            for (n2, src, dest), a in fig.link.items():
                if n2 == nn and src == nd["name"]:
                    bal = bal + a
                if n2 == nn and dest == nd["name"]:
                    bal = bal - a
            busy += bool(bal.any())
            close(sut("get_balance", agg.get_balance, node=nd["name"], network=nn), bal, tol, "balance of %s/%s" % k)
            if nn == "default":
                close(sut("get_balance", agg.get_balance, nd["name"]), bal, tol, "balance of %s" % nd["name"])
            count = [len(nd["consumptions"]), len(nd["productions"]), len(nd["storages"]), sum(l["src"] == nd["name"] for l in net["links"]),
                     sum(k in [(s["network"], s["node"]) for s in v["src"]] for v in spec["converters"]),
                     sum((v["to_network"], v["to_node"]) == k for v in spec["converters"])]
            g = sut("get_elements_inside", agg.get_elements_inside, node=nd["name"], network=nn)
            expect([float(x) for x in g] == [float(x) for x in count], "elements inside %s/%s: %s instead of %s", k[0], k[1], list(g), count)
            if nn == "default":
                g = sut("get_elements_inside", agg.get_elements_inside, nd["name"])
                expect([float(x) for x in g] == [float(x) for x in count], "elements inside %s: %s instead of %s", nd["name"], list(g), count)
            sub += count
            for p in nd["productions"]:
                rac = rac + d.prod[k + (p["name"],)][1] - fig.prod[k + (p["name"],)]
            for c in nd["consumptions"]:
                rac = rac - (d.cons[k + (c["name"],)][1] - fig.cons[k + (c["name"],)])
        close(sut("get_rac", agg.get_rac, network=nn), rac, tol, "remaining capacity of %s" % nn)
        if nn == "default":
            close(sut("get_rac", agg.get_rac), rac, tol, "remaining capacity")
        g = sut("get_elements_inside", agg.get_elements_inside, network=nn)
        expect([float(x) for x in g] == sub.tolist(), "elements inside network %s: %s instead of %s", nn, list(g), sub)
        total += sub
    g = sut("get_elements_inside", agg.get_elements_inside)
    expect([float(x) for x in g] == total.tolist(), "elements inside the study: %s instead of %s", list(g), total)
    rec.nontrivial = busy >= 2
    shape_labels(spec, rec)


@st.composite
def cases(draw):
    return {"study": study_spec(draw, big=True, dense=True, containers=False), "figures": draw(st.integers(0, 10 ** 6))}


SUBS = [Sub("aggregates", cases, decide, 2500, rule="at least two nodes exchange energy over links")]
