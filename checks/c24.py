"""How the optimum reacts to changes of the study: relations between two solves, no reference solver involved
(each plan is also held against the reference optimum, so that a pair wrong in the same way does not pass)."""
import copy

import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, expect
from vlib.gen import study_spec
from vlib.model import cost_scale, dense, plan_cost, reference
from checks.optim import shape_labels, solve

ASSUMPTIONS = ["costs compared within 4e-7 of the money at stake"]


def densify(spec):
    n, h = spec["nb_scn"], spec["horizon"]

    def go(x):
        if isinstance(x, dict):
            if "f" in x and "v" in x:
                return {"f": "mat", "c": "np", "v": dense(x, n, h).tolist()}
            return {k: go(v) for k, v in x.items()}
        return [go(v) for v in x] if isinstance(x, list) else x

    return go(spec)


def mat(a):
    return {"f": "mat", "c": "np", "v": np.asarray(a, dtype=float).tolist()}


def arr(v):
    return np.array(v["v"], dtype=float)


def full(spec, x):
    return mat(np.full((spec["nb_scn"], spec["horizon"]), float(x)))


def optimum(spec):
    """(dense study, plan, minimal cost of each scenario)"""
    d, plan, _, _ = solve(spec)
    cost = plan_cost(d, plan).sum(axis=1)
    tol = tol_of(d)
    for i in range(d.n):
        ok, best = reference(d, i)
        if not ok:
            raise RuntimeError("infeasible study generated")
        expect(abs(cost[i] - best) <= tol, "scenario %d costs %.9g, minimum %.9g", i, cost[i], best)
    return d, plan, cost


def tol_of(*ds):
    return max(4e-7 * cost_scale(d) + 4e-6 for d in ds)


def same(c1, c2, tol, what, k=1.0):
    for i in range(len(c1)):
        expect(abs(c1[i] * k - c2[i]) <= tol * max(1.0, k), "%s: scenario %d costs %.9g instead of %.9g", what, i, c2[i], c1[i] * k)


QTY = ("quantity", "capacity", "flow_in", "flow_out", "max")


def scaled(case, rec):
    spec, k = densify(case["study"]), case["k"]
    d, plan, c = optimum(spec)

    def go(x, keys, f):
        if isinstance(x, dict):
            return {a: (mat(arr(v) * f) if a in keys else (v * f if a == "init_capacity" and "capacity" in keys else go(v, keys, f))) for a, v in x.items()}
        return [go(v, keys, f) for v in x] if isinstance(x, list) else x

    if case["what"] == "quantities":
        other = go(spec, QTY, k)
    else:
        other = go(spec, ("cost",), k)
    d2, p2, c2 = optimum(other)
    same(c, c2, tol_of(d), "%s multiplied by %s" % (case["what"], k), k)
    rec.nontrivial = bool(np.abs(c).max() > 0)
    rec.label(case["what"])
    shape_labels(spec, rec)


def pick(spec, kind, at):
    """Elements of a kind as (network, holder, element)."""
    if kind == "converters":
        xs = [(None, None, v) for v in spec["converters"]]
    elif kind == "links":
        xs = [(net, net, l) for net in spec["networks"] for l in net["links"]]
    else:
        xs = [(net, nd, e) for net in spec["networks"] for nd in net["nodes"] for e in nd[kind]]
    return xs[at % len(xs)] if xs else None


def split(case, rec):
    """One element in two shares, one link in two ways (direct and through a relay)."""
    spec = densify(case["study"])
    got = pick(spec, case["kind"], case["at"])
    if got is None:
        return
    d, plan, c = optimum(spec)
    other = copy.deepcopy(spec)
    net, holder, e = pick(other, case["kind"], case["at"])
    p = case["share"] / 8.0
    keys = {"consumptions": ["quantity"], "productions": ["quantity"], "storages": ["capacity", "flow_in", "flow_out"],
            "converters": ["max"], "links": ["quantity"]}[case["kind"]]
    twin = copy.deepcopy(e)
    for k in keys:
        twin[k], e[k] = mat(arr(e[k]) * p), mat(arr(e[k]) * (1 - p))
    if case["kind"] == "storages":
        twin["init_capacity"], e["init_capacity"] = e["init_capacity"] * p, e["init_capacity"] * (1 - p)
        # rounding may put the first level above the capacity
        for s in (twin, e):
            s["capacity"] = mat(np.maximum(arr(s["capacity"]), s["init_capacity"]))
    if case["kind"] == "links":
        if e["src"] == e["dest"]:
            return
        relay(net, twin, other, case["first"])
    elif case["kind"] == "converters":
        twin["name"] = "twin of the first"
        other["converters"].append(twin)
    else:
        twin["name"] = "twin of the first"
        holder[case["kind"]].append(twin)
    d2, p2, c2 = optimum(other)
    same(c, c2, tol_of(d), "%s split in two" % case["kind"][:-1])
    rec.nontrivial = bool(np.abs(c).max() > 0)
    rec.label("split " + case["kind"])
    shape_labels(spec, rec)


def relay(net, link, spec, first):
    net["nodes"].append({"name": "relay", "consumptions": [], "productions": [], "storages": []})
    a = {"src": link["src"], "dest": "relay", "cost": link["cost"], "quantity": link["quantity"]}
    b = {"src": "relay", "dest": link["dest"], "cost": full(spec, 0), "quantity": link["quantity"]}
    if first:
        a["cost"], b["cost"] = b["cost"], a["cost"]
    net["links"] += [a, b]


def rewire(case, rec):
    """A link replaced by a relay node, or by a converter of ratio 1; nodes of two networks put in one."""
    spec = densify(case["study"])
    d, plan, c = optimum(spec)
    other = copy.deepcopy(spec)
    if case["how"] == "merge":
        if len(other["networks"]) < 2:
            return
        a, b = other["networks"][0], other["networks"][1]
        names = {nd["name"] for nd in a["nodes"]}
        new = {nd["name"]: nd["name"] + "+" if nd["name"] in names or nd["name"] + "+" in names else nd["name"] for nd in b["nodes"]}
        if len(set(new.values()) | names) < len(new) + len(names):
            return
        for nd in b["nodes"]:
            nd["name"] = new[nd["name"]]
        for l in b["links"]:
            l["src"], l["dest"] = new[l["src"]], new[l["dest"]]
        for v in other["converters"]:
            if v["to_network"] == b["name"]:
                v["to_network"], v["to_node"] = a["name"], new[v["to_node"]]
            for s in v["src"]:
                if s["network"] == b["name"]:
                    s["network"], s["node"] = a["name"], new[s["node"]]
        a["nodes"] += b["nodes"]
        a["links"] += b["links"]
        other["networks"].remove(b)
    else:
        net, _, e = pick(other, "links", case["at"]) or (None, None, None)
        if e is None or e["src"] == e["dest"]:
            return
        net["links"].remove(e)
        if case["how"] == "relay":
            relay(net, e, other, case["first"])
        else:
            other["converters"].append({
                "name": "instead of a link", "to_network": net["name"], "to_node": e["dest"], "max": e["quantity"], "cost": e["cost"],
                "src": [{"network": net["name"], "node": e["src"], "ratio": full(other, 1)}]})
    d2, p2, c2 = optimum(other)
    same(c, c2, tol_of(d), {"merge": "two networks in one", "relay": "link through a relay", "converter": "converter of ratio 1 instead of a link"}[case["how"]])
    rec.nontrivial = bool(np.abs(c).max() > 0)
    rec.label(case["how"])
    shape_labels(spec, rec)


def added(case, rec):
    """What cannot carry anything, or is connected to nothing, changes nothing (or adds its own optimum)."""
    spec = densify(case["study"])
    d, plan, c = optimum(spec)
    other = copy.deepcopy(spec)
    net = other["networks"][case["at"] % len(other["networks"])]
    nd = net["nodes"][case["at2"] % len(net["nodes"])]
    x = case["x"]
    z, cst = full(spec, 0), full(spec, x)
    plus = np.zeros(spec["nb_scn"])
    how = case["how"]
    pos = lambda lst: case["at"] % (len(lst) + 1)
    if how == "idle element":
        for kind in ("consumptions", "productions"):
            nd[kind].insert(pos(nd[kind]), {"name": "idle", "cost": cst, "quantity": z})
        nd["storages"].insert(pos(nd["storages"]), {"name": "idle", "capacity": z, "flow_in": z, "flow_out": z, "cost": cst, "init_capacity": 0, "eff": full(spec, 0.5)})
    elif how == "idle link":
        net["nodes"].insert(pos(net["nodes"]), {"name": "far", "consumptions": [], "storages": [], "productions": [{"name": "p", "cost": full(spec, -5), "quantity": cst if x > 0 else z}]})
        net["links"].insert(pos(net["links"]), {"src": "far", "dest": nd["name"], "cost": z, "quantity": z})
        net["links"].append({"src": nd["name"], "dest": "far", "cost": z, "quantity": z})
    elif how == "idle converter":
        other["converters"].insert(pos(other["converters"]), {"name": "idle", "to_network": net["name"], "to_node": nd["name"], "max": z, "cost": cst,
                                                               "src": [{"network": net["name"], "node": nd["name"], "ratio": full(spec, 0.3)}]})
    elif how == "locked storage":  # neither filled nor emptied: costs its content at each step
        q = abs(x)
        nd["storages"].insert(pos(nd["storages"]), {"name": "locked", "capacity": full(spec, q + 1), "flow_in": z, "flow_out": z, "cost": full(spec, 2),
                                                   "init_capacity": q, "eff": full(spec, 1)})
        plus += 2 * q * spec["horizon"]
    elif how == "island":  # served alone: 3 at 7, and 2 unserved at 11
        net["nodes"].insert(pos(net["nodes"]), {"name": "island", "storages": [], "consumptions": [{"name": "l", "cost": full(spec, 11), "quantity": full(spec, 5)}],
                                                "productions": [{"name": "p", "cost": full(spec, 7), "quantity": full(spec, 3)}]})
        plus += (21 + 22) * spec["horizon"]
    else:  # a whole other study
        o = densify(case["other"])
        d3, p3, c3 = optimum(o)
        used = {y["name"] for y in other["networks"]}
        ren = {}
        for y in o["networks"]:
            ren[y["name"]] = y["name"] + "'" if y["name"] in used else y["name"]
            y["name"] = ren[y["name"]]
        for v in o["converters"]:
            v["name"] += "'"
            v["to_network"] = ren[v["to_network"]]
            for s in v["src"]:
                s["network"] = ren[s["network"]]
        other["networks"] += o["networks"]
        other["converters"] += o["converters"]
        plus += c3
    d2, p2, c2 = optimum(other)
    same(c + plus, c2, tol_of(d, d2), "adding an %s" % how)
    rec.nontrivial = bool(np.abs(c).max() > 0)
    rec.label(how)
    shape_labels(spec, rec)


def limits(case, rec):
    """More room never costs more, and only in the scenario it was given to; more demand costs at most its price."""
    spec = densify(case["study"])
    got = pick(spec, case["kind"], case["at"])
    if got is None:
        return
    d, plan, c = optimum(spec)
    other = copy.deepcopy(spec)
    e = pick(other, case["kind"], case["at"])[2]
    i, t = case["i"] % d.n, case["t"] % d.h
    if case["kind"] == "storages":
        key = ["capacity", "flow_in", "flow_out"][case["key"] % 3]
    else:
        key = "max" if case["kind"] == "converters" else "quantity"
    a = arr(e[key])
    upto = t + 1 if key != "capacity" else d.h  # a capacity that shrinks again could leave no plan
    a[i, t:upto] += case["delta"]
    e[key] = mat(a)
    d2, p2, c2 = optimum(other)
    tol = tol_of(d, d2)
    for j in range(d.n):
        if j != i:
            expect(abs(c2[j] - c[j]) <= tol, "scenario %d costs %.9g instead of %.9g after a change in scenario %d", j, c2[j], c[j], i)
    if case["kind"] == "consumptions":
        u = arr(e["cost"])[i, t]
        expect(c2[i] <= c[i] + case["delta"] * u + tol, "%s more demand of price %s: cost from %.9g to %.9g", case["delta"], u, c[i], c2[i])
    else:
        expect(c2[i] <= c[i] + tol, "more room (%s of a %s): cost from %.9g up to %.9g", key, case["kind"][:-1], c[i], c2[i])
    rec.nontrivial = abs(c2[i] - c[i]) > tol
    rec.label(case["kind"] + " " + key)
    shape_labels(spec, rec)


def prices(case, rec):
    """Raising one price by x changes the cost between x times the use after and x times the use before."""
    spec = densify(case["study"])
    got = pick(spec, case["kind"], case["at"])
    if got is None:
        return
    d, plan, c = optimum(spec)
    other = copy.deepcopy(spec)
    e = pick(other, case["kind"], case["at"])[2]
    net, nd, _ = got
    i, t, x = case["i"] % d.n, case["t"] % d.h, case["delta"]
    a = arr(e["cost"])
    a[i, t] += x
    e["cost"] = mat(a)
    d2, p2, c2 = optimum(other)

    def use(p):
        if case["kind"] == "converters":
            return p.conv[e["name"]]["dest"][i, t]
        if case["kind"] == "links":
            return p.link[net["name"], e["src"], e["dest"]][i, t]
        k = (net["name"], nd["name"], e["name"])
        if case["kind"] == "consumptions":
            return arr(e["quantity"])[i, t] - p.cons[k][i, t]
        return p.prod[k][i, t] if case["kind"] == "productions" else p.stor[k]["capacity"][i, t]

    tol = tol_of(d, d2)
    for j in range(d.n):
        if j != i:
            expect(abs(c2[j] - c[j]) <= tol, "scenario %d costs %.9g instead of %.9g after a change in scenario %d", j, c2[j], c[j], i)
    lo, hi = x * use(p2), x * use(plan)
    expect(lo - tol <= c2[i] - c[i] <= hi + tol, "price of a %s raised by %s: cost changes by %.9g, uses before and after allow %.9g to %.9g",
           case["kind"][:-1], x, c2[i] - c[i], lo, hi)
    rec.nontrivial = abs(c2[i] - c[i]) > tol
    rec.label(case["kind"])
    shape_labels(spec, rec)


SMALL = dict(max_networks=2, max_nodes=3)
KINDS = ["consumptions", "productions", "storages", "links", "converters"]


def one_of(draw, xs):
    return xs[draw(st.integers(0, len(xs) - 1))]


def has(spec, kind):
    return pick(spec, kind, 0) is not None


def kind_in(draw, spec):
    ks = [k for k in KINDS if has(spec, k)]
    return one_of(draw, ks) if ks else KINDS[0]


@st.composite
def scaled_cases(draw):
    return {"study": study_spec(draw), "k": one_of(draw, [2, 3, 10, 0.5, 0.1, 7.3, 100]), "what": one_of(draw, ["quantities", "costs"])}


@st.composite
def split_cases(draw):
    s = study_spec(draw, **SMALL)
    return {"study": s, "kind": kind_in(draw, s), "at": draw(st.integers(0, 11)), "share": draw(st.integers(0, 8)), "first": draw(st.booleans())}


@st.composite
def rewire_cases(draw):
    s = study_spec(draw, max_nodes=3)
    hows = (["merge"] if len(s["networks"]) > 1 else []) + (["relay", "converter"] if has(s, "links") else [])
    return {"study": s, "how": one_of(draw, hows or ["merge"]), "at": draw(st.integers(0, 11)), "first": draw(st.booleans())}


@st.composite
def added_cases(draw):
    how = one_of(draw, ["idle element", "idle link", "idle converter", "locked storage", "island", "other study", "other study"])
    s = study_spec(draw, **SMALL)
    out = {"study": s, "how": how, "at": draw(st.integers(0, 5)), "at2": draw(st.integers(0, 5)), "x": draw(st.integers(-30, 50))}
    if how == "other study":
        out["other"] = study_spec(draw, h=s["horizon"], n=s["nb_scn"], **SMALL)
    return out


@st.composite
def limit_cases(draw):
    s = study_spec(draw, **SMALL)
    return {"study": s, "kind": kind_in(draw, s), "at": draw(st.integers(0, 11)), "key": draw(st.integers(0, 2)), "i": draw(st.integers(0, 5)),
            "t": draw(st.integers(0, 11)), "delta": one_of(draw, [1, 5, 20, 0.25, 100])}


SUBS = [
    Sub("scaled", scaled_cases, scaled, 500, rule="cost is not zero"),
    Sub("split", split_cases, split, 600, rule="cost is not zero and the element exists"),
    Sub("rewire", rewire_cases, rewire, 600, rule="cost is not zero and the study has a link or a second network"),
    Sub("added", added_cases, added, 600, rule="cost is not zero"),
    Sub("limits", limit_cases, limits, 800, rule="the cost of the changed scenario changed"),
    Sub("prices", limit_cases, prices, 800, rule="the cost of the changed scenario changed"),
]
