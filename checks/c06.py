import contextlib
import copy
import logging

import hadar as hd
from hypothesis import strategies as st
from vlib import pool
from vlib.core import Sub, canon, expect, reading, sut
from vlib.gen import NAMES, NET_NAMES, studies, study_spec
from vlib.model import Dense, Plan, build, cost_scale, dense, node_residual, plan_cost, raw, reference, require_elements
from checks.optim import shape_labels, solve

ASSUMPTIONS = ["costs compared within 2e-7 of the money at stake; plans themselves may differ when several are optimal"]


def tol_of(d):
    return 2e-7 * cost_scale(d) + 2e-6


def walk_values(spec, f):
    """Copy of spec with every quantity replaced by f(v)."""
    if isinstance(spec, dict):
        if "f" in spec and "v" in spec:
            return f(spec)
        return {k: walk_values(v, f) for k, v in spec.items()}
    if isinstance(spec, list):
        return [walk_values(v, f) for v in spec]
    return spec


def pick_scenarios(spec, ids):
    n, h = spec["nb_scn"], spec["horizon"]

    def f(v):
        a = dense(v, n, h)[ids]
        return {"f": "mat", "c": "np", "v": a.tolist()}

    out = walk_values(spec, f)
    out["nb_scn"] = len(ids)
    return out


def pick_steps(spec, ids):
    n, h = spec["nb_scn"], spec["horizon"]
    out = walk_values(spec, lambda v: {"f": "mat", "c": "np", "v": dense(v, n, h)[:, ids].tolist()})
    out["horizon"] = len(ids)
    return out


def costs(spec, **k):
    d, plan, _, _ = solve(spec, **k)
    return d, plan_cost(d, plan)


def scenarios(case, rec):
    spec, perm = case["study"], case["perm"]
    d, c = costs(spec)
    n = spec["nb_scn"]
    perm = sorted(range(n), key=lambda i: (perm[i % len(perm)], i))
    d2, c2 = costs(pick_scenarios(spec, perm))
    for pos, i in enumerate(perm):
        expect(abs(c2[pos].sum() - c[i].sum()) <= tol_of(d), "scenario %d costs %.9g, but %.9g at position %d of a "
               "study with its scenarios reordered", i, c[i].sum(), c2[pos].sum(), pos)
    k = case["alone"] % n
    _, c1 = costs(pick_scenarios(spec, [k]))
    expect(abs(c1.sum() - c[k].sum()) <= tol_of(d), "scenario %d costs %.9g among %d, %.9g alone", k, c[k].sum(), n, c1.sum())
    rec.nontrivial = n > 1 and len({round(float(x), 6) for x in c.sum(axis=1)}) > 1
    shape_labels(spec, rec)


def shuffled(spec, keys):
    """Same study, everything declared in another order."""
    it = iter(keys * 1000)

    def sh(x):
        return [y for _, y in sorted(((next(it), i), y) for i, y in enumerate(x))] if False else [
            y for _, _, y in sorted(((next(it), i, y) for i, y in enumerate(x)), key=lambda z: z[:2])]

    out = copy.deepcopy(spec)
    for net in out["networks"]:
        for nd in net["nodes"]:
            for k in ("consumptions", "productions", "storages"):
                nd[k] = sh(nd[k])
        net["nodes"] = sh(net["nodes"])
        net["links"] = sh(net["links"])
    for v in out["converters"]:
        v["src"] = sh(v["src"])
    out["networks"] = sh(out["networks"])
    out["converters"] = sh(out["converters"])
    return out


def order(case, rec):
    spec = case["study"]
    other = shuffled(spec, case["keys"])
    d, c = costs(spec)
    d2, c2 = costs(other)
    for i in range(d.n):
        expect(abs(c[i].sum() - c2[i].sum()) <= tol_of(d), "scenario %d costs %.9g or %.9g depending on declaration order",
               i, c[i].sum(), c2[i].sum())
    rec.nontrivial = canon(other) != canon(spec) and c.any()
    shape_labels(spec, rec)


def rename(case, rec):
    spec = copy.deepcopy(case["study"])
    d, c = costs(case["study"])
    nn = {net["name"]: "N%d" % i for i, net in enumerate(spec["networks"])}
    no = {}
    for net in spec["networks"]:
        for j, nd in enumerate(net["nodes"]):
            no[net["name"], nd["name"]] = "z%d" % (7 - j)
    for net in spec["networks"]:
        for l in net["links"]:
            l["src"], l["dest"] = no[net["name"], l["src"]], no[net["name"], l["dest"]]
        for nd in net["nodes"]:
            nd["name"] = no[net["name"], nd["name"]]
            for k in ("consumptions", "productions", "storages"):
                for j, e in enumerate(nd[k]):
                    e["name"] = "%s-%d" % (k[0], j)
    for j, v in enumerate(spec["converters"]):
        v["name"] = "v%d" % j
        v["to_node"] = no[v["to_network"], v["to_node"]]
        v["to_network"] = nn[v["to_network"]]
        for s in v["src"]:
            s["node"] = no[s["network"], s["node"]]
            s["network"] = nn[s["network"]]
    for net in spec["networks"]:
        net["name"] = nn[net["name"]]
    d2, c2 = costs(spec)
    for i in range(d.n):
        expect(abs(c[i].sum() - c2[i].sum()) <= tol_of(d), "scenario %d costs %.9g, but %.9g after renaming everything",
               i, c[i].sum(), c2[i].sum())
    rec.nontrivial = bool(c.any())
    shape_labels(case["study"], rec)


def steps(case, rec):
    """Without storage, time steps are independent problems."""
    spec = case["study"]
    d, c = costs(spec)
    h = spec["horizon"]
    ids = [x % h for x in case["steps"]]
    _, c2 = costs(pick_steps(spec, ids))
    for pos, t in enumerate(ids):
        gap = abs(c2[:, pos] - c[:, t]).max()
        expect(gap <= tol_of(d), "step %d costs %s, but %s at position %d of another horizon", t, c[:, t], c2[:, pos], pos)
    rec.nontrivial = h > 1 and bool(c.any())
    shape_labels(spec, rec)


@contextlib.contextmanager
def verbose(on):
    """As with HADAR_LOG=DEBUG, the messages being formatted and thrown away"""

    class Formats(logging.Handler):
        def emit(self, record):
            record.getMessage()

    root, h = logging.getLogger(), Formats()
    level, others = root.level, root.handlers[:]
    if on:
        for x in others:
            root.removeHandler(x)
        root.addHandler(h)
        root.setLevel(logging.DEBUG)
    try:
        yield
    finally:
        if on:
            root.setLevel(level)
            root.removeHandler(h)
            for x in others:
                root.addHandler(x)


def purity(case, rec):
    """solve() leaves the study and the caller's arrays alone, and can be repeated."""
    import numpy as np

    spec = case["study"]
    study = sut("building a valid study", build, hd, spec)
    before = sut("to_json", study.to_json)
    before_txt = canon(before)
    opt = hd.LPOptimizer()
    d = Dense(spec)
    p1 = Plan(spec, sut("solve", opt.solve, study))
    expect(canon(study.to_json()) == before_txt, "solve modified the study")
    if case["real"]:
        with pool.real():
            p2 = Plan(spec, sut("solve (again)", hd.LPOptimizer().solve, study))
    else:
        with pool.schedule(case["sched"], 3):
            p2 = Plan(spec, sut("solve (again)", opt.solve, study))
    require_elements(d, p1)
    require_elements(d, p2)
    a, b = plan_cost(d, p1), plan_cost(d, p2)
    expect(abs(a.sum(axis=1) - b.sum(axis=1)).max() <= tol_of(d), "second solve of the same study costs %s instead of %s",
           b.sum(axis=1), a.sum(axis=1))
    # another study solved in between does not matter either
    o = nearby(spec, case["near"]) if case.get("near") else case["other"]
    other = sut("building a valid study", build, hd, o)
    p = Plan(o, sut("solve (other)", opt.solve, other))
    do = Dense(o)
    require_elements(do, p)
    if case.get("near") and do.h * do.n * len(do.nodes) < 3000:
        co = plan_cost(do, p).sum(axis=1)
        for i in range(do.n):
            ok, best = reference(do, i)
            expect(not ok or abs(co[i] - best) <= tol_of(do), "a study solved after a similar one costs %.9g in scenario %d, the minimum is %.9g", co[i], i, best)
        bad = max(abs(r).max() for r in node_residual(do, p).values())
        expect(bad <= 10 * do.tol, "a study solved after a similar one is out of balance by %g", bad)
    with verbose(case["grow"][2] % 2 == 1):
        p3 = Plan(spec, sut("solve (third)", opt.solve, study))
    c3 = plan_cost(d, p3)
    expect(abs(a.sum(axis=1) - c3.sum(axis=1)).max() <= tol_of(d), "third solve costs %s instead of %s", c3.sum(axis=1), a.sum(axis=1))
    # and neither do the earlier solves once the study has been extended: same as solving the extended study at first
    spec2 = copy.deepcopy(spec)
    net = spec2["networks"][case["grow"][0] % len(spec2["networks"])]
    nd = net["nodes"][case["grow"][1] % len(net["nodes"])]
    one = {"f": "scalar", "v": case["grow"][2]}
    nd["consumptions"].append({"name": "added load", "cost": {"f": "scalar", "v": 40}, "quantity": one})
    net["nodes"].append({"name": "added node", "consumptions": [], "storages": [], "productions": [
        {"name": "added prod", "cost": {"f": "scalar", "v": 30}, "quantity": {"f": "scalar", "v": 7}}]})
    net["links"].append({"src": "added node", "dest": nd["name"], "cost": {"f": "scalar", "v": 1}, "quantity": {"f": "scalar", "v": 5}})
    sel = sut("extending a solved study", lambda: study.network(net["name"]).node(nd["name"]).consumption(name="added load", cost=40, quantity=case["grow"][2])
              .node("added node").production(name="added prod", cost=30, quantity=7).link(src="added node", dest=nd["name"], cost=1, quantity=5))
    d2 = Dense(spec2)
    p4 = Plan(spec2, sut("solve (extended)", opt.solve, study))
    require_elements(d2, p4)
    p5 = Plan(spec2, sut("solve (extended, fresh)", hd.LPOptimizer().solve, sut("building a valid study", build, hd, spec2)))
    require_elements(d2, p5)
    c4, c5 = plan_cost(d2, p4).sum(axis=1), plan_cost(d2, p5).sum(axis=1)
    expect(abs(c4 - c5).max() <= tol_of(d2), "study solved then extended costs %s, built at once %s", c4, c5)
    rec.nontrivial = bool(a.any())
    rec.label("real process pool" if case["real"] else None)
    shape_labels(spec, rec)


def nearby(spec, keys):
    """The same study but for one cell of the quantity of one element."""
    o = copy.deepcopy(spec)
    q = [e for net in o["networks"] for nd in net["nodes"] for k in ("consumptions", "productions") for e in nd[k]]
    if q:
        e = q[keys[0] % len(q)]
        if e["quantity"]["f"] == "scalar":
            e["quantity"]["v"] += keys[3]
        elif e["quantity"]["f"] != "mat":
            v = e["quantity"]["v"]
            v[keys[1] % len(v)] += keys[3]
        else:
            row = e["quantity"]["v"][keys[1] % spec["nb_scn"]]
            row[len(row) // 2 if len(row) > 9 else keys[2] % len(row)] += keys[3]
    return o


def long_study(draw):
    """More than a thousand cells in each table."""
    import random

    r = random.Random(draw(st.integers(0, 10 ** 6)))
    h, n = draw(st.sampled_from([(1100, 1), (560, 2)]))
    row = lambda a, b: {"f": "mat", "c": "np", "v": [[round(r.uniform(a, b), 2) for _ in range(h)] for _ in range(n)]}
    return {"horizon": h, "nb_scn": n, "converters": [], "networks": [{"name": "default", "links": [], "nodes": [
        {"name": "a", "consumptions": [{"name": "load", "cost": {"f": "scalar", "v": 500}, "quantity": row(0, 50)}],
         "productions": [{"name": "gas", "cost": row(1, 9), "quantity": row(0, 60)}], "storages": []}]}]}


@st.composite
def scn_cases(draw):
    n = draw(st.integers(2, 6)) if draw(st.integers(0, 14)) else draw(st.sampled_from([9, 10, 12, 17, 23]))  # fewer or more than processors
    return {"study": study_spec(draw, n=n, h=draw(st.integers(1, 3)) if n > 6 else None, max_networks=2, max_nodes=3), "perm": draw(st.lists(st.integers(0, 9), min_size=6, max_size=6)),
            "alone": draw(st.integers(0, 22))}


@st.composite
def order_cases(draw):
    return {"study": study_spec(draw), "keys": draw(st.lists(st.integers(0, 50), min_size=7, max_size=7))}


@st.composite
def rename_cases(draw):
    return {"study": study_spec(draw)}


@st.composite
def step_cases(draw):
    return {"study": study_spec(draw, storages=False), "steps": draw(st.lists(st.integers(0, 11), min_size=1, max_size=4))}


@st.composite
def pure_cases(draw):
    far = draw(st.integers(0, 79)) == 79
    near = [draw(st.integers(0, 9)) for _ in range(3)] + [draw(st.sampled_from([1, 30, 0.001, 7]))] if far or draw(st.integers(0, 2)) == 2 else None
    return {"study": long_study(draw) if far else study_spec(draw, max_networks=2, max_nodes=3), "near": near, "other": study_spec(draw, max_networks=1, max_nodes=2, converters=False),
            "real": draw(st.integers(0, 39)) == 39, "sched": draw(st.lists(st.integers(0, 2), min_size=1, max_size=5)),
            "grow": [draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.integers(0, 30))]}


SUBS = [
    Sub("scenarios", scn_cases, scenarios, 900, rule="several scenarios with different costs"),
    Sub("order", order_cases, order, 900, rule="declaration order really changed and cost is not zero"),
    Sub("rename", rename_cases, rename, 400, rule="cost is not zero"),
    Sub("steps", step_cases, steps, 700, rule="several steps, cost is not zero"),
    Sub("purity", pure_cases, purity, 700, rule="cost is not zero"),
]
