"""Charts of one element: the figure shows exactly the element's own figures."""
import re

import hadar as hd
import numpy as np
import pandas as pd
from hadar.viewer.abc import ABCElementPlotting, ABCPlotting
from hypothesis import strategies as st
from vlib import decoy
from vlib.core import Sub, expect, reading, rejects, sut
from vlib.gen import study_spec
from vlib.model import Dense, build
from vlib.synth import Figures
from checks.optim import shape_labels

ASSUMPTIONS = [
    "results are synthetic, storage levels being made consistent with their flows",
    "figures are read as plotly data (x, y, text); colours, titles and layout are not looked at",
    "a point is checked as passed or failed only when the remaining capacity is not within 1e-9 of zero",
]

ELEMENTS = ("consumption", "production", "storage", "link", "to_converter", "from_converter")
CHARTS = {"consumption": ("timeline", "monotone", "gaussian"), "production": ("timeline", "monotone", "gaussian"), "storage": ("candles", "monotone"),
          "link": ("timeline", "monotone", "gaussian"), "to_converter": ("timeline", "monotone", "gaussian"),
          "from_converter": ("timeline", "monotone", "gaussian")}


def consistent(d, fig):
    """Levels of storages follow from their flows."""
    for k, s in d.stor.items():
        f = fig.stor[k]
        f["capacity"] = s["init"] + np.cumsum(s["eff"] * f["flow_in"] - f["flow_out"], axis=1)
    return fig


def world(case):
    spec = case["study"]
    d = Dense(spec)
    fig = consistent(d, Figures(spec, case["figures"]))
    study = sut("building a valid study", build, hd, spec)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, fig.result(spec))
    return spec, d, fig, agg


def rac_of(d, fig, net):
    r = np.zeros((d.n, d.h))
    for k, (c, q) in d.prod.items():
        if k[0] == net:
            r += q - fig.prod[k]
    for k, (c, q) in d.cons.items():
        if k[0] == net:
            r -= q - fig.cons[k]
    return r


def elements(d, fig, kind):
    """(network, node, identifier, {kind of figure: table}) of every element of a kind; None is the default kind."""
    if kind == "consumption":
        return [(k, {"given": fig.cons[k], "asked": q, None: fig.cons[k]}) for k, (c, q) in d.cons.items()]
    if kind == "production":
        return [(k, {"used": fig.prod[k], "avail": q, None: fig.prod[k]}) for k, (c, q) in d.prod.items()]
    if kind == "link":
        return [(k, {"used": fig.link[k], "avail": q, None: fig.link[k]}) for k, (c, q) in d.link.items()]
    if kind == "storage":
        return [(k, {None: None}) for k in d.stor]
    if kind == "to_converter":
        return [((net, node, name), {None: fig.conv[name]["src"][net, node]}) for name, v in d.conv.items() for net, node in v["src"]]
    return [((v["dest"][0], v["dest"][1], name), {None: fig.conv[name]["dest"]}) for name, v in d.conv.items()]


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((abs(a - b) <= 1e-9 * np.maximum(1, abs(b))).all())


def time_args(case):
    if not case["dates"]:
        return {}
    return {"time_start": "2020-02-01", "time_end": "2020-03-01"}


def time_axis(case, h):
    if not case["dates"]:
        return list(range(h))
    return list(pd.date_range("2020-02-01", "2020-03-01", periods=h))


def same_axis(x, want, what):
    x = list(x)
    if want and isinstance(want[0], pd.Timestamp):
        x = [pd.Timestamp(v) for v in x]
        ok = len(x) == len(want) and all(abs((a - b).total_seconds()) < 1e-3 for a, b in zip(x, want))
    else:
        ok = [int(v) for v in x] == want
    expect(ok, "%s: time axis is %s instead of %s", what, x, want)


class Recorder(ABCElementPlotting):
    """A user's own drawing backend."""

    def timeline(self, df, title):
        return ("timeline", df, title)

    def monotone(self, y, title):
        return ("monotone", y, title)

    def gaussian(self, rac, qt, title):
        return ("gaussian", rac, qt, title)

    def candles(self, open, close, title):
        return ("candles", open, close, title)

    def stack(self, areas, lines, title):
        return ("stack", areas, lines, title)

    def matrix(self, data, title):
        return ("matrix", data, title)

    def map_exchange(self, nodes, lines, limit, title, zoom):
        return ("map", nodes, lines, limit, title, zoom)


class OwnPlotting(ABCPlotting):
    def __init__(self, agg):
        ABCPlotting.__init__(self, agg)
        self.plotting = Recorder()


def draw_study(draw):
    return study_spec(draw, max_networks=2, max_nodes=3, dense=True, containers=False)


@st.composite
def cases(draw):
    spec = draw_study(draw)
    asks = [{"kind": draw(st.sampled_from(ELEMENTS)), "which": draw(st.integers(0, 40)), "fig": draw(st.integers(0, 2)), "chart": draw(st.integers(0, 2)),
             "axis": draw(st.sampled_from(["t", "scn"])), "at": draw(st.integers(0, 11))} for _ in range(draw(st.integers(1, 5)))]
    return {"study": spec, "figures": draw(st.integers(0, 10 ** 6)), "asks": asks, "dates": draw(st.booleans()), "unit": draw(st.sampled_from(["", "MW"]))}


def decide(case, rec):
    spec, d, fig, agg = world(case)
    plot = sut("HTMLPlotting", hd.HTMLPlotting, agg, unit_symbol=case["unit"], **time_args(case))
    if case["figures"] % 3 == 0:
        decoy.viewer()
    own = sut("own plotting", OwnPlotting, agg)
    axis = time_axis(case, d.h)
    done = 0
    for ask in case["asks"]:
        els = elements(d, fig, ask["kind"])
        if not els:
            continue
        (net, node, ident), figs = els[ask["which"] % len(els)]
        kind = sorted(figs, key=str)[ask["fig"] % len(figs)]
        chart = CHARTS[ask["kind"]][ask["chart"] % len(CHARTS[ask["kind"]])]
        table = figs[kind]
        at = ask["at"] % (d.h if ask["axis"] == "t" else d.n)
        arg = {ask["axis"]: at}
        what = "%s of %s %s on %s/%s (%s)%s" % (chart, ask["kind"], ident, net, node, kind, "" if chart == "timeline" else " at %s" % arg)

        def sel(p):
            s = p.network(net) if not (net == "default" and ask["which"] % 2) else p.network()
            s = getattr(s.node(node), ask["kind"])
            return s(ident) if kind is None else s(ident, kind=kind)

        if chart == "candles":
            arg = {"scn": ask["at"] % d.n} if ask["axis"] == "scn" else {}
        html = sut(what, lambda: getattr(sel(plot), chart)(**({} if chart == "timeline" else arg)))
        raw = sut(what + ", own drawing", lambda: getattr(sel(own), chart)(**({} if chart == "timeline" else arg)))
        with reading(what):
            expect(raw[0] == chart, "%s: backend was asked for %s", what, raw[0])
            tr = list(html.data)
            if chart == "timeline":
                expect(len(tr) == d.n, "%s: %d curves for %d scenarios", what, len(tr), d.n)
                for i in range(d.n):
                    expect(close(tr[i].y, table[i]), "%s: curve of scenario %d shows %s instead of %s", what, i, list(tr[i].y), table[i].tolist())
                    same_axis(tr[i].x, axis, what)
                    label = re.findall(r"\d+", tr[i].name or "")
                    expect(len(label) != 1 or int(label[0]) == i, "%s: curve of scenario %d is named %r", what, i, tr[i].name)
                expect(close(np.asarray(raw[1].sort_index().values).reshape(d.n, d.h), table), "%s: backend received %s instead of %s", what, raw[1].values, table)
            elif chart == "candles":
                i = arg.get("scn", 0)
                k = (net, node, ident)
                end = fig.stor[k]["capacity"][i]
                begin = np.append(d.stor[k]["init"], end[:-1])
                expect(close(tr[0].open, begin) and close(tr[0].close, end), "%s: shows %s -> %s instead of %s -> %s", what, list(tr[0].open), list(tr[0].close), begin, end)
                same_axis(tr[0].x, axis, what)
                expect(close(raw[1], begin) and close(raw[2], end), "%s: backend received %s -> %s instead of %s -> %s", what, raw[1], raw[2], begin, end)
            else:
                if ask["kind"] == "storage":
                    f = fig.stor[net, node, ident]
                    table = f["flow_in"] - f["flow_out"]
                vec = table[:, at] if ask["axis"] == "t" else table[at]
                if chart == "monotone":
                    expect(close(tr[0].y, np.sort(vec)[::-1]), "%s: shows %s instead of %s", what, list(tr[0].y), np.sort(vec)[::-1].tolist())
                    x = np.asarray(tr[0].x, dtype=float)
                    expect(len(x) == len(vec) and close(x, np.linspace(0, 100, len(vec))), "%s: percentages are %s", what, x.tolist())
                    expect(close(np.sort(np.asarray(raw[1], dtype=float)), np.sort(vec)), "%s: backend received %s instead of %s", what, raw[1], vec)
                else:
                    rac = rac_of(d, fig, net)
                    rac = rac[:, at] if ask["axis"] == "t" else rac[at]
                    expect(close(raw[2], vec), "%s: backend received quantities %s instead of %s", what, raw[2], vec)
                    expect(np.allclose(raw[1], rac, atol=1e-7), "%s: backend received remaining capacities %s instead of %s", what, raw[1], rac)
                    if (abs(rac) > 1e-9).all():
                        named = {t.name: t for t in tr if t.name}
                        for name, want in (("passed", vec[rac >= 0]), ("failed", vec[rac < 0])):
                            expect(close(np.sort(np.asarray(named[name].x, dtype=float)), np.sort(want)), "%s: points %s are %s instead of %s", what, name,
                                   list(named[name].x), want.tolist())
                        bell(tr, named, vec, what)
                done += 1
        # both filters at once are refused
        if chart in ("monotone", "gaussian"):
            rejects(what + " with a step and a scenario", lambda: getattr(sel(plot), chart)(t=0, scn=0))
        rec.label("%s %s" % (ask["kind"], chart))
        done += 1
    if done:
        # drawing changed nothing
        after = sut("ResultAnalyzer", hd.ResultAnalyzer, agg.study, agg.result)
        for n in spec["networks"]:
            a, b = sut("get_cost", agg.get_cost, network=n["name"]), sut("get_cost", after.get_cost, network=n["name"])
            expect(np.array_equal(a, b), "costs of %s are different after drawing", n["name"])
    rejects("a start without an end of time", lambda: hd.HTMLPlotting(agg, time_start="2020-02-01"))
    rejects("an end without a start of time", lambda: hd.HTMLPlotting(agg, time_end="2020-02-01"))
    rec.nontrivial = done > 0 and d.n * d.h > 1
    shape_labels(spec, rec)


def bell(tr, named, vec, what):
    """Curve and points lie on one bell centred on the mean, as wide as the standard deviation."""
    m, o = vec.mean(), vec.std()
    if o < 1e-6 * max(1, abs(m)):
        return
    line = [t for t in tr if not t.name][0]
    pts = [(x, y) for t in (line, named["passed"], named["failed"]) for x, y in zip(t.x, t.y)]
    top = None
    for x, y in pts:
        e = -0.5 * ((x - m) / o) ** 2
        if e < -30:
            continue
        k = float(y) / np.exp(e)
        top = k if top is None else top
        expect(abs(k - top) <= 1e-6 * abs(top) and k > 0, "%s: point (%s, %s) is not on the bell of mean %s and deviation %s", what, x, y, m, o)


SUBS = [Sub("elements", cases, decide, 1200, rule="at least one chart of more than one figure")]
