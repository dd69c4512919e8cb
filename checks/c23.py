"""Charts of a node (stack) and of a network (exchange map, remaining capacity matrix)."""
import hadar as hd
import numpy as np
from hypothesis import strategies as st
from vlib import decoy
from vlib.core import Sub, expect, reading, rejects, sut
from checks.c22 import OwnPlotting, close, draw_study, rac_of, same_axis, time_args, time_axis, world
from checks.optim import shape_labels

ASSUMPTIONS = [
    "results are synthetic",
    "figures are read as plotly data; colours, titles and layout are not looked at",
    "the order of stacked elements is only checked between kinds, and inside a kind when costs are constant in time and distinct",
]


def balance_of(d, fig, net, node):
    b = np.zeros((d.n, d.h))
    for (n, src, dest), u in fig.link.items():
        if n == net:
            b += u * (src == node) - u * (dest == node)
    return b


def flat_cost(c, scn):
    """The cost over the steps of a scenario if it is constant, else None."""
    row = c[scn]
    return float(row[0]) if (row == row[0]).all() else None


def expected_stack(d, fig, net, node, scn, prod_kind, cons_kind):
    here = lambda m: [(k, v) for k, v in m.items() if k[:2] == (net, node)]
    areas = [
        [(k[2], (fig.prod[k] if prod_kind == "used" else q)[scn], flat_cost(c, scn)) for k, (c, q) in here(d.prod)],
        [(k[2], fig.stor[k]["flow_out"][scn], flat_cost(s["cost"], scn)) for k, s in here(d.stor)],
        [(name, fig.conv[name]["dest"][scn], None) for name, v in d.conv.items() if v["dest"] == (net, node)],
    ]
    lines = [
        [(k[2], (fig.cons[k] if cons_kind == "given" else q)[scn], flat_cost(c, scn)) for k, (c, q) in here(d.cons)],
        [(k[2], fig.stor[k]["flow_in"][scn], flat_cost(s["cost"], scn)) for k, s in here(d.stor)],
        [(name, fig.conv[name]["src"][net, node][scn], None) for name, v in d.conv.items() if (net, node) in v["src"]],
    ]
    b = balance_of(d, fig, net, node)[scn]
    im, ex = -np.clip(b, None, 0), np.clip(b, 0, None)
    areas.append([("import", im, None)])
    lines.append([("export", ex, None)])
    return areas, lines


def same_layers(got, groups, what):
    """got: list of (name, figures); groups of expected layers in order, free inside a group unless costs tell. The last group may be absent if nil."""
    got = [(n, np.asarray(v, dtype=float)) for n, v in got]
    last = groups[-1][0]
    want = [g for g in groups[:-1]]
    total = sum(len(g) for g in want)
    if len(got) > total:
        expect(len(got) == total + 1, "%s: %d layers instead of %d", what, len(got), total + 1)
        expect(got[-1][0] == last[0] and np.allclose(got[-1][1], last[1], atol=1e-7), "%s: last layer is %s instead of %s", what, got[-1], last[:2])
    else:
        expect(len(got) == total, "%s: %d layers instead of %d", what, len(got), total)
        expect((abs(last[1]) < 1e-7).all(), "%s: %s %s is missing", what, last[0], last[1].tolist())
    pos = 0
    for g in want:
        part = got[pos: pos + len(g)]
        pos += len(g)
        by = {n: (v, c) for n, v, c in g}
        expect(sorted(n for n, _ in part) == sorted(by), "%s: layers %s instead of %s", what, [n for n, _ in part], sorted(by))
        for n, v in part:
            expect(v.shape == by[n][0].shape and np.allclose(v, by[n][0], rtol=1e-9, atol=1e-7), "%s: layer %s shows %s instead of %s", what, n, v.tolist(), by[n][0].tolist())
        costs = [by[n][1] for n, _ in part]
        if None not in costs and len(set(costs)) == len(costs):
            expect(costs == sorted(costs, reverse=True), "%s: layers %s have costs %s, dearest is not first", what, [n for n, _ in part], costs)


@st.composite
def stack_cases(draw):
    return {"study": draw_study(draw), "figures": draw(st.integers(0, 10 ** 6)), "dates": draw(st.booleans()),
            "asks": [{"net": draw(st.integers(0, 3)), "node": draw(st.integers(0, 3)), "scn": draw(st.none() | st.integers(0, 9)),
                      "prod": draw(st.sampled_from([None, "used", "avail"])), "cons": draw(st.sampled_from([None, "asked", "given"]))}
                     for _ in range(draw(st.integers(1, 3)))]}


def stack(case, rec):
    spec, d, fig, agg = world(case)
    plot = sut("HTMLPlotting", hd.HTMLPlotting, agg, **time_args(case))
    if case["figures"] % 3 == 0:
        decoy.viewer()
    own = sut("own plotting", OwnPlotting, agg)
    axis = time_axis(case, d.h)
    most = 0
    for ask in case["asks"]:
        net = spec["networks"][ask["net"] % len(spec["networks"])]
        node = net["nodes"][ask["node"] % len(net["nodes"])]["name"]
        kw = {}
        if ask["scn"] is not None:
            kw["scn"] = ask["scn"] % d.n
        if ask["prod"]:
            kw["prod_kind"] = ask["prod"]
        if ask["cons"]:
            kw["cons_kind"] = ask["cons"]
        what = "stack of %s/%s %s" % (net["name"], node, kw)
        areas, lines = expected_stack(d, fig, net["name"], node, kw.get("scn", 0), kw.get("prod_kind", "used"), kw.get("cons_kind", "asked"))
        html = sut(what, lambda: plot.network(net["name"]).node(node).stack(**kw))
        raw = sut(what + ", own drawing", lambda: own.network(net["name"]).node(node).stack(**kw))
        with reading(what):
            same_layers(raw[1], areas, what + " (areas given to the backend)")
            same_layers(raw[2], lines, what + " (lines given to the backend)")
            tr = list(html.data)
            na, nl = len(raw[1]), len(raw[2])
            expect(len(tr) == na + nl, "%s: %d curves instead of %d", what, len(tr), na + nl)
            for t in tr:
                same_axis(t.x, axis, what)
            filled = [t for t in tr if t.fill]
            plain = [t for t in tr if not t.fill]
            expect(len(filled) == na, "%s: %d areas instead of %d", what, len(filled), na)
            same_layers(unstack(filled), areas, what + " (areas)")
            same_layers(unstack(plain[::-1]), lines, what + " (lines)")
            most = max(most, na + nl)
    rec.nontrivial = most >= 3
    shape_labels(spec, rec)


def unstack(traces):
    out, below = [], 0.0
    for t in traces:
        y = np.asarray(t.y, dtype=float)
        out.append((t.name, y - below))
        below = y
    return out


@st.composite
def map_cases(draw):
    return {"study": draw_study(draw), "figures": draw(st.integers(0, 10 ** 6)), "dates": draw(st.booleans()), "net": draw(st.integers(0, 3)), "t": draw(st.integers(0, 30)),
            "scn": draw(st.none() | st.integers(0, 9)), "limit": draw(st.sampled_from([None, None, 10, 500]))}


def chart_map(case, rec):
    spec, d, fig, agg = world(case)
    net = spec["networks"][case["net"] % len(spec["networks"])]
    names = [n["name"] for n in net["nodes"]]
    coord = {n: [2.0 + 3 * i, 48.0 + i * i] for i, n in enumerate(names)}
    t, scn = case["t"] % d.h, (case["scn"] or 0) % d.n
    kw = {"t": t, "zoom": 1.6}
    if case["scn"] is not None:
        kw["scn"] = scn
    if case["limit"] is not None:
        kw["limit"] = case["limit"]
    what = "map of %s %s" % (net["name"], kw)
    plot = sut("HTMLPlotting", hd.HTMLPlotting, agg, node_coord=coord, **time_args(case))
    if case["figures"] % 3 == 0:
        decoy.viewer()
    own = sut("own plotting", OwnPlotting, agg)
    html = sut(what, lambda: plot.network(net["name"]).map(**kw))
    raw = sut(what + ", own drawing", lambda: own.network(net["name"]).map(**kw))
    bal = {n: balance_of(d, fig, net["name"], n)[scn, t] for n in names}
    flow = {}
    for (k, src, dest), u in fig.link.items():
        if k == net["name"] and src != dest:
            flow[src, dest] = flow.get((src, dest), 0.0) + u[scn, t]
            flow[dest, src] = flow.get((dest, src), 0.0) - u[scn, t]
    want = {k: v for k, v in flow.items() if v > 1e-9}
    with reading(what):
        got = {n: float(v) for n, v in raw[1].items()}
        expect(set(got) == set(names) and all(abs(got[n] - bal[n]) < 1e-7 for n in names), "%s: backend received balances %s instead of %s", what, got, bal)
        arrows(list(raw[2].items()), want, flow, names, what + " (given to the backend)")
        if case["limit"] is not None:
            expect(raw[3] == case["limit"], "%s: limit %s", what, raw[3])
        else:
            expect(abs(raw[3] - max(abs(v) for v in bal.values())) < 1e-7, "%s: limit is %s, balances %s", what, raw[3], bal)
        # drawn figure: one marker per node with its balance, arrows labelled with their quantity
        marks = [x for x in html.data if x.mode == "markers"]
        expect(len(marks) == 1, "%s: %d sets of nodes", what, len(marks))
        shown = {(round(float(lo), 6), round(float(la), 6)): float(q) for lo, la, q in zip(marks[0].lon, marks[0].lat, marks[0].text)}
        place = {n: (round(coord[n][0], 6), round(coord[n][1], 6)) for n in names}
        expect(set(shown) == set(place.values()), "%s: nodes drawn at %s instead of %s", what, shown, place)
        for n in names:
            expect(abs(shown[place[n]] - bal[n]) < 1e-7, "%s: node %s shows %s instead of %s", what, n, shown[place[n]], bal[n])
        at = {v: k for k, v in place.items()}
        drawn = []
        curves = [x for x in html.data if x.mode == "lines"]
        heads = [x for x in curves if x.fill]
        shafts = [x for x in curves if not x.fill]
        expect(len(heads) == len(shafts), "%s: %d arrow heads for %d lines", what, len(heads), len(shafts))
        for s, h in zip(shafts, heads):
            ends = [(round(float(a), 6), round(float(b), 6)) for a, b in zip(s.lon, s.lat)]
            src, dest = at[ends[0]], at[ends[1]]
            # the head lies on the side of its end
            tip = np.array([np.mean([v for v in h.lon if v is not None]), np.mean([v for v in h.lat if v is not None])])
            if src != dest:
                expect(np.linalg.norm(tip - coord[dest]) < np.linalg.norm(tip - coord[src]), "%s: arrow %s->%s points backward", what, src, dest)
            drawn.append(((src, dest), float(h.text if isinstance(h.text, (str, float, int)) else h.text[0])))
        arrows(drawn, want, flow, names, what)
    rejects(what + " without coordinates", lambda: hd.HTMLPlotting(agg).network(net["name"]).map(**kw))
    rec.nontrivial = len(want) > 0
    rec.label("both directions" if any((b, a) in fig_pairs(fig, net["name"]) for a, b in fig_pairs(fig, net["name"])) else None, "no exchange" if not want else None,
              "no link" if not net["links"] else None)
    shape_labels(spec, rec)


def fig_pairs(fig, net):
    return {(a, b) for (k, a, b) in fig.link if k == net and a != b}


def arrows(got, want, flow, names, what):
    seen = set()
    for (src, dest), q in got:
        q = float(q)
        if abs(q) <= 1e-9:
            expect(src == dest or abs(flow.get((src, dest), 1)) <= 1e-9, "%s: arrow %s->%s shows nothing instead of %s", what, src, dest, flow.get((src, dest)))
            continue
        expect((src, dest) in want, "%s: arrow %s->%s of %s, but net exchange is %s", what, src, dest, q, flow.get((src, dest)))
        expect(abs(q - want[src, dest]) < 1e-7, "%s: arrow %s->%s shows %s instead of %s", what, src, dest, q, want[src, dest])
        expect((src, dest) not in seen, "%s: arrow %s->%s drawn twice", what, src, dest)
        seen.add((src, dest))
    expect(seen == set(want), "%s: exchanges %s are not drawn", what, sorted(set(want) - seen))


@st.composite
def matrix_cases(draw):
    return {"study": draw_study(draw), "figures": draw(st.integers(0, 10 ** 6)), "dates": draw(st.booleans()), "mode": draw(st.sampled_from(["any", "passed", "failed", "any"]))}


def matrix(case, rec):
    from vlib.model import build
    from vlib.synth import Figures

    spec, d, fig, agg = world(case)
    if case["mode"] != "any":
        # everything served with capacity left, or everything used without serving all
        for k, (c, q) in d.cons.items():
            fig.cons[k] = q.copy() if case["mode"] == "passed" else q * 0.5
        for k, (c, q) in d.prod.items():
            fig.prod[k] = q * 0.5 if case["mode"] == "passed" else q.copy()
        agg = sut("ResultAnalyzer", hd.ResultAnalyzer, sut("building a valid study", build, hd, spec), fig.result(spec))
    plot = sut("HTMLPlotting", hd.HTMLPlotting, agg, **time_args(case))
    if case["figures"] % 3 == 0:
        decoy.viewer()
    own = sut("own plotting", OwnPlotting, agg)
    for net in spec["networks"]:
        what = "remaining capacity matrix of %s" % net["name"]
        want = rac_of(d, fig, net["name"])
        html = sut(what, lambda: plot.network(net["name"]).rac_matrix())
        raw = sut(what + ", own drawing", lambda: own.network(net["name"]).rac_matrix())
        with reading(what):
            expect(np.shape(raw[1]) == want.shape and np.allclose(raw[1], want, atol=1e-7), "%s: backend received %s instead of %s", what, raw[1], want)
            m = html.data[0]
            text, z = np.array(m.text, dtype=float), np.array(m.z, dtype=float)
            expect(text.shape == want.shape and np.allclose(text, want, atol=1e-7), "%s: shows %s instead of %s", what, text, want)
            same_axis(m.x, time_axis(case, d.h), what)
            expect([int(y) for y in m.y] == list(range(d.n)), "%s: scenarios are %s", what, list(m.y))
            # colour: each side scaled to its own extreme
            scale = want.copy()
            if (want > 0).any():
                scale[want > 0] /= want[want > 0].max()
            if (want < 0).any():
                scale[want < 0] /= -want[want < 0].min()
            if (abs(want)[want != 0] > 1e-6).all():
                expect(np.allclose(z, scale, atol=1e-6), "%s: colours %s instead of %s", what, z, scale)
    rec.nontrivial = d.n * d.h > 1 and bool(d.prod or d.cons)
    rec.label(case["mode"])
    shape_labels(spec, rec)


SUBS = [
    Sub("stack", stack_cases, stack, 800, rule="a stack of three layers or more"),
    Sub("map", map_cases, chart_map, 800, rule="some exchange to show"),
    Sub("matrix", matrix_cases, matrix, 500, rule="several figures"),
]
