import hadar as hd
import numpy as np
from hypothesis import strategies as st
from vlib import decoy
from vlib.core import Sub, expect, reading, sut
from vlib.gen import studies, study_spec
from vlib.model import Dense, Plan, build, cost_scale, plan_cost, reference, require_elements
from vlib.synth import Figures
from checks.optim import shape_labels, solve

ASSUMPTIONS = ["figures compared within 1e-9 of the money moved there, 2e-7 against the optimum"]


def node_costs(d, p):
    """Cost of each node per (scenario, step): links at the exporting node, converters at the receiving node. And the money moved there."""
    out = {k: np.zeros((d.n, d.h)) for k in d.nodes}
    mag = {k: np.zeros((d.n, d.h)) for k in d.nodes}

    def add(k, x):
        out[k] += x
        mag[k] += np.abs(x)

    for (net, node, name), (c, q) in d.cons.items():
        add((net, node), (q - p.cons[net, node, name]) * c)
        mag[net, node] += np.abs(q * c)
    for (net, node, name), (c, _) in d.prod.items():
        add((net, node), p.prod[net, node, name] * c)
    for (net, node, name), s in d.stor.items():
        add((net, node), p.stor[net, node, name]["capacity"] * s["cost"])
    for (net, src, dest), (c, _) in d.link.items():
        add((net, src), p.link[net, src, dest] * c)
    for name, v in d.conv.items():
        add(v["dest"], p.conv[name]["dest"] * v["cost"])
    return out, mag


def close(a, b, tol, what):
    with reading(what):
        a = np.asarray(a, dtype=float)
        expect(a.shape == b.shape, "%s has shape %s instead of %s", what, a.shape, b.shape)
        gap = np.abs(a - b)
        expect(not (gap > tol).any() and np.isfinite(a).all(), "%s is %s instead of %s", what, a.tolist(), b.tolist())


def check(agg, d, p):
    per, mag = node_costs(d, p)
    zero = np.zeros((d.n, d.h))
    tol = {k: 1e-9 * m + 1e-9 for k, m in mag.items()}
    for (net, node), c in per.items():
        close(sut("get_cost(node, network)", agg.get_cost, node=node, network=net), c, tol[net, node], "cost of node %s/%s" % (net, node))
        if net == "default":
            close(sut("get_cost(node)", agg.get_cost, node=node), c, tol[net, node], "cost of node %s" % node)
    for net in {k[0] for k in per}:
        c = sum((v for k, v in per.items() if k[0] == net), zero)
        close(sut("get_cost(network)", agg.get_cost, network=net), c, sum((v for k, v in tol.items() if k[0] == net), zero), "cost of network %s" % net)
    total = sum(per.values(), zero)
    close(sut("get_cost()", agg.get_cost), total, sum(tol.values(), zero), "cost of the study")
    return per, total


def synthetic(case, rec):
    spec = case["study"]
    d = Dense(spec)
    fig = Figures(spec, case["figures"])
    study = sut("building a valid study", build, hd, spec)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, fig.result(spec))
    if case["figures"] % 3 == 0:
        decoy.analyzer()
    per, total = check(agg, d, fig)
    rec.nontrivial = sum(bool(c.any()) for c in per.values()) >= 2
    shape_labels(spec, rec)


def optimum(spec, rec):
    """On a solved study the reported cost is the optimum of the documented problem."""
    d, p, study, result = solve(spec)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, result)
    _, total = check(agg, d, p)
    got = sut("get_cost()", agg.get_cost)
    for i in range(d.n):
        _, ref = reference(d, i)
        expect(abs(got[i].sum() - ref) <= 2e-7 * cost_scale(d) + 2e-6, "scenario %d: reported cost %.9g, minimum %.9g", i, got[i].sum(), ref)
    rec.nontrivial = bool(total.any())
    shape_labels(spec, rec)


@st.composite
def cases(draw):
    return {"study": study_spec(draw, big=True, dense=True, containers=False), "figures": draw(st.integers(0, 10 ** 6))}


SUBS = [
    Sub("synthetic", cases, synthetic, 1200, rule="at least two nodes with a non-zero cost"),
    Sub("optimum", lambda: studies(max_networks=2, max_nodes=3), optimum, 900, rule="cost is not zero"),
]
