"""Hypothesis strategies producing plain-JSON cases."""
import random

from hypothesis import strategies as st

# Names chosen so that prefixes, case, digits, spaces, unicode and reserved-looking words all occur.
NAMES = [
    "a", "b", "c", "ab", "abc", "A", "d", "e", "0", "1", "10", "a b", "n-1", "default", "import", "export", "name",
    "t", "scn", "node", "é", "b.c", "prod", "load", "gas", "elec", "total", "x_y", "long" * 8, "B",
    " a", "a ", "b:c", "a/b", "1.0", "nan", "%s",
]
NET_NAMES = ["default", "elec", "gas", "a", "h2", "net 2", "ELEC", "n", "b", " gas", "gas ", "a:b", "0"]


def small(lo, hi, p_zero=None):
    return st.integers(lo, hi)


@st.composite
def weighted(draw, pairs):
    total = sum(w for w, _ in pairs)
    k = draw(st.integers(0, total - 1))
    for w, v in pairs:
        if k < w:
            return v
        k -= w
    return pairs[-1][1]


def wchoice(draw, *pairs):
    """pairs of (weight, value); shrinks towards the first"""
    total = sum(w for w, _ in pairs)
    k = draw(st.integers(0, total - 1))
    for w, v in pairs:
        if k < w:
            return v
        k -= w


def numbers(draw, n, lo, hi, integer, zero_p):
    """n numbers in [lo, hi]; explicit draws when few, else expanded from one drawn seed.

    Either integers, two-decimal or full-precision floats."""
    if not integer and n <= 3 and draw(st.integers(0, 2)) < 2:
        return [round(draw(st.integers(int(lo * 100), int(hi * 100))) / 100.0, 2) for _ in range(n)]
    if integer and n <= 3:
        return [draw(st.integers(int(lo), int(hi))) for _ in range(n)]
    seed = draw(st.integers(0, 2 ** 20))
    r = random.Random(seed)
    fine = seed % 3 == 0 or n <= 3
    out = []
    for _ in range(n):
        if r.random() < zero_p and lo <= 0 <= hi:
            out.append(0 if integer else 0.0)
        elif integer:
            out.append(r.randint(int(lo), int(hi)))
        else:
            x = r.uniform(lo, hi)
            out.append(x if fine else min(max(round(x, 2), lo), hi))
    return out


ALL_FORMS = ((5, "scalar"), (3, "row"), (2, "col"), (5, "mat"))


def value(draw, n, h, lo, hi, forms=ALL_FORMS, integer=None, zero_p=0.12, containers=True):
    """One study quantity in one of the documented input forms."""
    form = wchoice(draw, *forms)
    if integer is None:
        integer = hi - lo >= 2 and draw(st.booleans())
    cont = draw(st.sampled_from(["np", "np", "list", "df", "npf", "dfi"])) if containers else "np"
    dt = None
    if cont == "np" and containers:
        dt = wchoice(draw, (8, None), (1, "32"))
    if form == "scalar":
        return {"f": "scalar", "v": numbers(draw, 1, lo, hi, integer, zero_p)[0]}
    if form == "row":
        return {"f": "row", "c": cont, "dt": dt, "v": numbers(draw, h, lo, hi, integer, zero_p)}
    if form == "col":
        return {"f": "col", "c": cont, "dt": dt, "v": numbers(draw, n, lo, hi, integer, zero_p)}
    flat = numbers(draw, n * h, lo, hi, integer, zero_p)
    v = [flat[i * h : (i + 1) * h] for i in range(n)]
    if not integer and dt is None and n * h > 1 and draw(st.integers(0, 19)) == 19:
        # scenarios or steps that differ by next to nothing
        by = draw(st.booleans())
        return {"f": "mat", "c": cont, "dt": dt, "v": [[(r[0] if by else v[0][j]) * (1 - 1e-7 * (j if by else i)) for j in range(h)] for i, r in enumerate(v)]}
    return {"f": "mat", "c": cont, "dt": dt, "v": patterned(draw, v) if n * h > 1 else v}


def patterned(draw, v):
    """Real tables repeat themselves: a scenario drawn twice, a scenario or step holding for all, all alike but one cell."""
    n, h = len(v), len(v[0])
    k = wchoice(draw, (12, 0), (1, 1), (1, 2), (1, 3), (1, 4))
    if k == 1:
        return v[:-1] + [list(v[0])]
    if k == 2:
        return [list(v[0]) for _ in v]
    if k == 3:
        return [[r[0]] * h for r in v]
    if k == 4:
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, h - 1))
        return [[v[i][j] if (a, b) == (i, j) else v[-1 - i][-1 - j] for b in range(h)] for a in range(n)]
    return v


def sizes(draw, big=False, max_h=6, max_n=4):
    h = wchoice(draw, (2, 1), (3, 2), (4, 3), (2, 4), (2, 5), (1, 6), (1 if big else 0, 12), (1 if big else 0, 24))
    n = wchoice(draw, (4, 1), (4, 2), (3, 3), (1, 4), (1 if big else 0, 7), (1 if big else 0, 11))
    if draw(st.integers(0, 29)) == 29:  # more than a day, more scenarios than processors or than one digit
        return draw(st.sampled_from([(26, 1), (1, 13), (2, 11), (27, 2), (3, 10), (49, 1), (2, 17)]))
    if big and draw(st.integers(0, 79)) == 79:
        return draw(st.sampled_from([(60, 2), (168, 1), (3, 40), (30, 12), (1, 70), (2, 17), (170, 2), (400, 1), (520, 2)]))
    return (min(h, max_h) if not big else h), (min(n, max_n) if not big else n)


def unique_names(draw, pool, k):
    out = []
    rest = list(pool)
    for _ in range(k):
        x = rest.pop(draw(st.integers(0, min(len(rest) - 1, 7)))) if draw(st.integers(0, 3)) else rest.pop(
            draw(st.integers(0, len(rest) - 1)))
        out.append(x)
    return out


def study_spec(
    draw,
    big=False,
    feasible=True,
    max_networks=3,
    max_nodes=4,
    storages=True,
    links=True,
    converters=True,
    scale=None,
    neg_cost=True,
    h=None,
    n=None,
    self_link=True,
    containers=True,
    dense=False,
):
    """A complete study as JSON. Every quantity is drawn in one of the documented forms.

    feasible=True: storages start inside their capacity and capacities never shrink below what may be stored
    (constant in time or non-decreasing), so that the do-nothing plan exists.
    """
    hh, nn = sizes(draw, big)
    h = hh if h is None else h
    n = nn if n is None else n
    if scale is None:
        scale = wchoice(draw, (12, 100), (4, 10), (2, 10000), (2, 3), (1, 10 ** 6), (1, 0.5))

    def V(lo, hi, **k):
        return value(draw, n, h, lo, hi, containers=containers, **k)

    money = wchoice(draw, (24, 1), (3, 1000), (3, 30), (1, 0.01))  # unit of account

    def cost(hi):
        hi = hi * money
        if neg_cost and draw(st.integers(0, 19)) == 19:
            return V(-hi, hi)
        return V(0, hi)

    def ratio():
        lo, hi, integer = wchoice(draw, (9, (0.1, 3, False)), (3, (0.01, 0.2, False)), (1, (3, 40, False)), (2, (1, 3, True)))
        return V(lo, hi, integer=integer, zero_p=0)

    nnet = min(max_networks, wchoice(draw, (5, 1), (4, 2), (1, 3)))
    join = None
    if draw(st.integers(0, 7)) == 7:  # names that give the same text when put side by side
        sep = draw(st.sampled_from(["", "_", ".", "-", " ", "/", ":"]))
        join = lambda *a: sep.join(a)
        nnet = min(max_networks, 1 + draw(st.integers(0, 1)))
    wide_names = lambda first, pool: list(dict.fromkeys(first + list(pool)))
    wide = big and h * n < 40 and draw(st.integers(0, 39)) == 39  # many nodes, many elements
    nets = []
    netnames = unique_names(draw, NET_NAMES, nnet)
    if join and nnet > 1:
        netnames[:2] = ["x", join("x", "y")]
    for ni, nname in enumerate(netnames):
        k = min(max_nodes, wchoice(draw, (2, 1), (4, 2), (3, 3), (1, 4)))
        if wide:
            k = draw(st.integers(5, 12))
        nodes = []
        names = unique_names(draw, NAMES, k)
        if join:
            # a + b.c is ab + c, x + y.a is xy + a, x + y is the network xy
            first = [["a", join("a", "b")]] if nnet == 1 else [[join("y", "a"), "y"], ["a", join("a", "b")]]
            k = max(k, min(max_nodes, 2))
            names = wide_names(first[ni % len(first)], names + NAMES)[:k]
        if nets and not join and draw(st.booleans()):  # nodes named as in the first network
            twin = [x["name"] for x in nets[0]["nodes"]]
            names = (twin + [x for x in names if x not in twin])[:k]
        for name in names:
            nc = wchoice(draw, (1 if dense else 2, 0), (6, 1), (2, 2), (1, 3))
            np_ = wchoice(draw, (1 if dense else 2, 0), (5, 1), (3, 2), (1, 3))
            ns = wchoice(draw, (4 if dense else 5, 0), (3, 1), (2, 2), (1, 3)) if storages else 0
            node = {"name": name, "consumptions": [], "productions": [], "storages": []}
            if wide and not nodes:
                nc, np_ = nc + 6, np_ + 10
            first = []
            if join:
                first = {"a": [join("b", "c")], join("a", "b"): ["c"]}.get(name, ["c"]) if nnet == 1 else ["c"]
            named = lambda k: wide_names(first, unique_names(draw, NAMES, k))[:k]
            for c in named(nc):
                dear = {"f": "scalar", "v": 10 ** 6 * money} if draw(st.integers(0, 7)) == 7 else None
                node["consumptions"].append({"name": c, "cost": dear or cost(1000), "quantity": V(0, scale)})
            for p in named(np_):
                node["productions"].append({"name": p, "cost": cost(100), "quantity": V(0, scale)})
            for s in named(ns):
                node["storages"].append(storage(draw, s, n, h, scale, feasible, V, cost))
            nodes.append(node)
        lk = []
        if links:
            for i in range(k):
                for j in range(k):
                    if (draw(st.integers(0, 2)) and (k < 5 or i == 0 or (i * j) % 4 == 1 or abs(i - j) == 1) if i != j else (self_link and draw(st.integers(0, 24)) == 24)):
                        lk.append({
                            "src": nodes[i]["name"], "dest": nodes[j]["name"],
                            "cost": cost(20), "quantity": V(0, scale),
                        })
            if len(lk) > 1 and draw(st.booleans()):
                lk = draw(st.permutations(lk))
        nets.append({"name": nname, "nodes": nodes, "links": lk})
    conv = []
    if converters:
        allnodes = [(x["name"], y["name"]) for x in nets for y in x["nodes"]]
        nv = wchoice(draw, (4, 0), (3, 1), (2, 2), (1, 3))
        for cname in unique_names(draw, NAMES, nv):
            dest = allnodes[draw(st.integers(0, len(allnodes) - 1))]
            twins = [x for x in allnodes if conv and x[1] == conv[-1]["to_node"] and x[0] != conv[-1]["to_network"]]
            if twins and draw(st.integers(0, 2)) == 2:  # delivered at a homonymous node of another network
                dest = twins[0]
            others = [x for x in allnodes if x != dest] or allnodes
            ks = min(len(others), wchoice(draw, (3, 1), (3, 2), (1, 3)))
            srcs = []
            rest = list(others)
            for _ in range(ks):
                srcs.append(rest.pop(draw(st.integers(0, len(rest) - 1))))
            conv.append({
                "name": cname, "to_network": dest[0], "to_node": dest[1],
                "max": V(0, scale), "cost": cost(50),
                "src": [{"network": a, "node": b, "ratio": ratio()} for a, b in srcs],
            })
    return {"horizon": h, "nb_scn": n, "networks": nets, "converters": conv}


def storage(draw, name, n, h, scale, feasible, V, cost):
    from vlib.model import dense

    flows = dict(flow_in=V(0, scale), flow_out=V(0, scale))
    eff = V(draw(st.sampled_from([0.1, 0.1, 0])), 1, integer=False, zero_p=0.2) if draw(st.integers(0, 3)) else {"f": "scalar", "v": 1}
    if feasible:
        cap = V(0, scale, forms=((4, "scalar"), (2, "col"), (1, "row"), (2, "mat")))
        # make non decreasing in time so that keeping the initial volume is always a plan
        if cap["f"] == "row":
            cap["v"] = sorted(cap["v"])
        elif cap["f"] == "mat":
            cap["v"] = [sorted(r) for r in cap["v"]]
        top = float(dense(cap, n, h)[:, 0].min())
        init = wchoice(draw, (2, 0), (1, 1), (2, 2))
        init = 0 if init == 0 else (int(top) if init == 1 else min(top, round(top * draw(st.integers(0, 10)) / 10.0, 3)))
    else:
        cap = V(0, scale)
        init = draw(st.integers(0, max(1, int(scale))))
    return {"name": name, "capacity": cap, "cost": cost(5), "init_capacity": init, "eff": eff, **flows}


@st.composite
def studies(draw, **k):
    return study_spec(draw, **k)
