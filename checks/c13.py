import hadar as hd
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import decoy
from vlib.core import Sub, Violation, expect, reading, sut
from vlib.gen import study_spec, wchoice
from vlib.model import Dense, build
from vlib.synth import KINDS, Figures, rows
from checks.optim import shape_labels

ASSUMPTIONS = [
    "results are synthetic (distinct figures per element, scenario, step), so no solver is involved",
    "figures compared within 1e-9 relative",
]


def id_filter(draw, names, anchor):
    """None (all), one name, a list or tuple of names (usually with the anchor, rarely unknown)."""
    names = list(dict.fromkeys(names))
    k = wchoice(draw, (4, "all"), (4, "one"), (3, "list"), (1, "tuple"), (1, "any"))
    if k == "all" or not names:
        return None
    if k == "one":
        return anchor
    if k == "any":
        return draw(st.sampled_from(names + ["no such name"]))
    sub = draw(st.lists(st.sampled_from(names), min_size=0, max_size=3, unique=True))
    if anchor not in sub:
        sub.insert(draw(st.integers(0, len(sub))), anchor)
    return sub if k == "list" else {"tuple": sub}


def int_filter(draw, size):
    k = wchoice(draw, (4, "all"), (3, "one"), (2, "list"), (5, "slice"))
    if k == "all":
        return None
    if k == "one":
        return draw(st.integers(0, size - 1))
    if k == "list":
        out = draw(st.lists(st.integers(0, size - 1), min_size=1, max_size=4, unique=True))
        odd = draw(st.integers(0, 7))
        if odd == 7 and len(out) > 1:  # the same one twice
            out = out + out[:1]
        elif odd == 6:
            out = out + [size + 2]  # one that does not exist
        return {"tuple": out} if odd == 5 else out
    a = draw(st.none() | st.integers(0, size - 1))
    b = draw(st.none() | st.integers(a or 0, size + 1))
    c = draw(st.none() | st.integers(1, 3))
    return {"slice": [a, b, c]}


def element_keys(spec, kind):
    """(network, node, id) of every element of a kind"""
    out = []
    if kind == "to_converter":
        return [(s["network"], s["node"], v["name"]) for v in spec["converters"] for s in v["src"]]
    if kind == "from_converter":
        return [(v["to_network"], v["to_node"], v["name"]) for v in spec["converters"]]
    for net in spec["networks"]:
        if kind == "link":
            out += [(net["name"], l["src"], l["dest"]) for l in net["links"]]
        else:
            for nd in net["nodes"]:
                out += [(net["name"], nd["name"], e["name"]) for e in nd[kind + "s"]]
    return out


def draw_query(draw, spec):
    present = [k for k in KINDS if element_keys(spec, k)]
    if not present or draw(st.integers(0, 39)) == 39:
        present = list(KINDS)
    kd = draw(st.sampled_from(present))
    keys = element_keys(spec, kd)
    anchor = keys[draw(st.integers(0, len(keys) - 1))] if keys else (spec["networks"][0]["name"], None, None)
    netnames = [n["name"] for n in spec["networks"]]
    how = wchoice(draw, (5, "one"), (2, "all"), (1, "list"))
    nets = {"one": anchor[0], "all": None, "list": [anchor[0]] + [x for x in netnames if x != anchor[0]][: draw(st.integers(0, 2))]}[how]
    if draw(st.integers(0, 4)) == 4:  # everything of a kind
        return {"kind": kd, "order": list(draw(st.permutations(["node", "time", "scn", "element"]))), "network": None, "node": None, "element": None,
                "time": None, "scn": None}
    return {
        "kind": kd,
        "order": list(draw(st.permutations(["node", "time", "scn", "element"]))),
        "network": nets,
        "node": id_filter(draw, [nd["name"] for net in spec["networks"] for nd in net["nodes"]], anchor[1]) if anchor[1] else None,
        "element": id_filter(draw, [k[2] for k in keys], anchor[2]) if anchor[2] else None,
        "time": int_filter(draw, spec["horizon"]),
        "scn": int_filter(draw, spec["nb_scn"]),
    }


@st.composite
def cases(draw):
    spec = study_spec(draw, big=True, dense=True, containers=False)
    return {"study": spec, "figures": draw(st.integers(0, 10 ** 6)),
            "queries": [draw_query(draw, spec) for _ in range(draw(st.integers(1, 4)))]}


def as_arg(f):
    if isinstance(f, dict):
        return slice(*f["slice"]) if "slice" in f else tuple(f["tuple"])
    return f


def accepts(f, x):
    if f is None or f == []:
        return True
    if isinstance(f, dict):
        if "tuple" in f:
            return x in f["tuple"]
        a, b, c = f["slice"]
        return x >= (a or 0) and (b is None or x < b) and (x - (a or 0)) % (c or 1) == 0
    if isinstance(f, list):
        return x in f
    return x == f


def single(f, size):
    """The filter names exactly one value (so its level is dropped when on top)."""
    if f is None or f == []:
        return False
    if isinstance(f, dict):
        if "tuple" in f:
            return len(f["tuple"]) == 1
        a, b, c = f["slice"]
        return b is not None and len(range(a or 0, b, c or 1)) == 1
    return len(f) == 1 if isinstance(f, list) else True


def run_query(agg, q, nets):
    sel = agg.network() if nets == "default" else agg.network(nets)
    idname = q["kind"]
    for step in q["order"]:
        name = {"element": idname}.get(step, step)
        f = as_arg(q[step])
        sel = getattr(sel, name)() if f is None else getattr(sel, name)(f)
    return sel


def check_query(agg, d, fig, q, spec):
    nets = q["network"]
    idcol = "dest" if q["kind"] == "link" else "name"
    level = {"node": "node", "time": "t", "scn": "scn", "element": idcol}
    flt = {"network": nets, "node": q["node"], "t": q["time"], "scn": q["scn"], idcol: q["element"]}
    levels = ["network"] + [level[s] for s in q["order"]]
    want = [(k, v) for k, v in rows(d, fig, q["kind"]) if all(accepts(flt[c], k[c]) for c in flt)]
    df = sut("query %s" % q, run_query, agg, q, nets)
    with reading("query %s" % q):
        if not want:
            expect(len(df) == 0, "query %s matches nothing but %d rows came back", q, len(df))
            return 0
        drop = 0
        while drop < 5 and single(flt[levels[drop]], 0):
            drop += 1
        left = levels[drop:]
        if not left:
            expect(isinstance(df, pd.Series) or len(df) == 1, "fully specified query does not give one row")
            ser = df if isinstance(df, pd.Series) else df.iloc[0]
            got = [((), {c: float(ser[c]) for c in ser.index})]
        else:
            expect(list(df.index.names) == left, "index levels %s instead of %s", list(df.index.names), left)
            cols = list(df.columns)
            got = []
            for key, vals in zip(df.index.tolist(), df.values.tolist()):
                key = key if isinstance(key, tuple) else (key,)
                got.append((key, dict(zip(cols, vals))))
        exp = sorted(((tuple(k[l] for l in left), v) for k, v in want), key=lambda x: x[0])
        expect(len(got) == len(exp), "query %s: %d rows instead of %d", q, len(got), len(exp))
        for (gk, gv), (ek, ev) in zip(got, exp):
            expect(tuple(gk) == ek, "query %s: row %s where %s was expected", q, gk, ek)
            for c, x in ev.items():
                expect(c in gv, "query %s: no column %s", q, c)
                expect(abs(gv[c] - x) <= 1e-9 * max(1.0, abs(x)), "query %s row %s: %s = %r instead of %r", q, gk, c, gv[c], x)
    return len(want)


def decide(case, rec):
    spec = case["study"]
    d = Dense(spec)
    fig = Figures(spec, case["figures"])
    study = sut("building a valid study", build, hd, spec)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, fig.result(spec))
    if case["figures"] % 3 == 0:
        decoy.analyzer()
    total = sum(len(rows(d, fig, q["kind"])) for q in case["queries"])
    got = 0
    for q in case["queries"]:
        n = check_query(agg, d, fig, q, spec)
        got += n
        rec.label("kind " + q["kind"] if n else "empty " + q["kind"])
    rec.nontrivial = 0 < got < total
    shape_labels(spec, rec)


def synth_case(draw, **k):
    return {"study": study_spec(draw, **k), "figures": draw(st.integers(0, 10 ** 6))}


SUBS = [Sub("query", cases, decide, 3000, rule="the queries keep some but not all rows")]
