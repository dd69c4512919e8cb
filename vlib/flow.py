"""Workflow pieces: JSON description of timelines and stages, hadar objects for them, and a plain reference model."""
import copy
import random

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib.gen import wchoice

COLS = ["a", "b", "quantity", "mean", "ab", "x y", "0"]


# ---------------------------------------------------------------- timelines

def draw_table(draw, max_scn=4, names=None, need=()):
    """{"scn": [labels] | None, "names": [...], "layout": scn|name major, "index": kind, "h": int, "seed": int, "ints": bool}"""
    h = draw(st.integers(1, 6)) if draw(st.integers(0, 11)) else draw(st.sampled_from([7, 12, 24, 33, 64, 100, 200]))
    if names is None:
        k = draw(st.integers(1, 4))
        names = list(need)
        pool = [c for c in COLS if c not in names]
        while len(names) < k + len(need) and pool and len(names) < 5:
            names.append(pool.pop(draw(st.integers(0, len(pool) - 1))))
        if len(names) > 1 and draw(st.booleans()):
            names = list(draw(st.permutations(names)))
    flat = draw(st.integers(0, 2)) == 0
    scn = None if flat else draw(st.sampled_from([[0], [0, 1], [0, 1, 2], [1, 0], [3, 7], [0, 1, 2, 3], [5], [-1, 2], [2, 0, 1], [9, 10, 11], list(range(11)), list(range(100, 117))]))
    return {
        "scn": scn, "names": names, "layout": "scn" if flat else draw(st.sampled_from(["scn", "scn", "name"])),
        "index": draw(st.sampled_from(["range", "range", "date", "offset", "reverse", "text", "twice", "zone"])), "h": h,
        "seed": draw(st.integers(0, 10 ** 6)), "ints": draw(st.sampled_from([True, False, "some"])),
    }


class Table:
    """Reference timeline: time index, and values per (scenario, name), in column order."""

    def __init__(self, index, cols):
        self.index, self.cols = list(index), dict(cols)

    def copy(self):
        return Table(self.index, {k: list(v) for k, v in self.cols.items()})

    @property
    def scenarios(self):
        return list(dict.fromkeys(s for s, _ in self.cols))

    @property
    def names(self):
        return list(dict.fromkeys(n for _, n in self.cols))


def time_index(kind, h):
    if kind == "date":
        return list(pd.date_range("2020-01-01", periods=h, freq="h"))
    if kind == "zone":  # named, with a time zone
        return list(pd.date_range("2020-10-25", periods=h, freq="h", tz="Europe/Paris"))
    if kind == "offset":
        return list(range(10, 10 + h))
    if kind == "text":
        return ["step %d" % i for i in range(h)]
    if kind == "twice":  # an hour occurring twice, as when clocks go back
        return [max(i - 1, 0) for i in range(h)]
    if kind == "reverse":
        return list(range(h - 1, -1, -1))
    return list(range(h))


def table(t):
    """Reference table of a description."""
    r = random.Random(t["seed"])
    scn = t["scn"] or [0]
    keys = [(s, n) for s in scn for n in t["names"]] if t["layout"] == "scn" else [(s, n) for n in t["names"] for s in scn]
    cols = {}
    for k in keys:
        ints = r.random() < 0.5 if t["ints"] == "some" else t["ints"]
        cols[k] = [r.randint(-50, 100) if ints else round(r.uniform(-50, 100), 3) for _ in range(t["h"])]
    return Table(time_index(t["index"], t["h"]), cols)


def frame(t):
    """The DataFrame a user would pass."""
    df = _frame(t)
    if t["index"] == "zone":
        df.index.name = "time"
    if t["seed"] % 5 == 0:
        df.columns.names = ["name"] if t["scn"] is None else ["scn", "name"]
    return df


def _frame(t):
    ref = table(t)
    if t["ints"] == "some":  # each column of its own kind
        df = pd.DataFrame({i: v for i, v in enumerate(ref.cols.values())}, index=ref.index)
        df.columns = [n for _, n in ref.cols] if t["scn"] is None else pd.MultiIndex.from_tuples(list(ref.cols))
        return df
    data = np.array([ref.cols[k] for k in ref.cols]).T
    if t["scn"] is None:
        return pd.DataFrame(data, columns=[n for _, n in ref.cols], index=ref.index)
    return pd.DataFrame(data, columns=pd.MultiIndex.from_tuples(list(ref.cols)), index=ref.index)


def read_frame(df, what):
    """DataFrame with (scenario, name) columns -> Table"""
    from vlib.core import expect, reading

    with reading(what):
        cols = {}
        expect(getattr(df.columns, "nlevels", 1) == 2, "%s: columns are not (scenario, name): %s", what, list(df.columns)[:5])
        for i, k in enumerate(df.columns):
            expect(k not in cols, "%s: column %s twice", what, k)
            cols[k] = [float(x) for x in df.iloc[:, i].values]
        return Table(list(df.index), cols)


def same_table(got, want, what, only=None):
    from vlib.core import expect

    expect(got.index == want.index, "%s: time index %s instead of %s", what, got.index, want.index)
    if only is None:
        expect(set(got.cols) == set(want.cols), "%s: columns %s instead of %s", what, list(got.cols), list(want.cols))
    for k, v in want.cols.items():
        if only is not None and k[1] not in only:
            continue
        expect(k in got.cols, "%s: column %s is missing (has %s)", what, k, list(got.cols))
        g = got.cols[k]
        expect(len(g) == len(v) and all(abs(x - y) <= 1e-9 * max(1.0, abs(y)) for x, y in zip(g, v)), "%s: column %s is %s instead of %s", what, k, g, v)


# ---------------------------------------------------------------- stages

def _classes():
    from hadar.workflow.pipeline import FocusStage, FreePlug, RestrictedPlug, Stage

    class Affine(Stage):
        """everything * k + c"""

        def __init__(self, k, c):
            Stage.__init__(self, FreePlug())
            self.k, self.c = k, c

        def _process_timeline(self, timeline):
            return timeline * self.k + self.c

    class InPlace(Stage):
        """Changes its argument in place, as users do."""

        def __init__(self, c):
            Stage.__init__(self, FreePlug())
            self.c = c

        def _process_timeline(self, timeline):
            timeline.iloc[:, :] = timeline.values + self.c
            return timeline

    class Mix(FocusStage):
        """out = sum(inputs) * (1 + position in time) in each scenario; inputs dropped or kept"""

        def __init__(self, inputs, out, keep):
            FocusStage.__init__(self, RestrictedPlug(inputs=list(inputs), outputs=[out] + (list(inputs) if keep else [])))
            self.ins, self.out, self.keep = list(inputs), out, keep

        def _process_scenarios(self, n_scn, scenario):
            total = sum(scenario[i] for i in self.ins) * (1 + np.arange(scenario.shape[0]))
            scenario[self.out] = total
            return scenario if self.keep else scenario.drop([i for i in self.ins if i != self.out], axis=1)

    class Shift(FocusStage):
        """adds the scenario label times c to one column, in place"""

        def __init__(self, name, c):
            FocusStage.__init__(self, RestrictedPlug(inputs=[name], outputs=[name]))
            self.name, self.c = name, c

        def _process_scenarios(self, n_scn, scenario):
            scenario[self.name] = scenario[self.name] + self.c * n_scn
            return scenario

    for c in (Affine, InPlace, Mix, Shift):  # picklable
        c.__module__, c.__qualname__ = __name__, c.__name__
        globals()[c.__name__] = c


def make(s):
    """hadar stage of a description"""
    import hadar as hd

    if "Affine" not in globals():
        _classes()
    k = s["k"]
    if k == "clip":
        return hd.Clip(lower=s["lower"], upper=s["upper"])
    if k == "rename":
        return hd.Rename(**s["map"])
    if k == "drop":
        return hd.Drop(s["names"])
    if k == "repeat":
        return hd.RepeatScenario(s["n"])
    if k == "to_shuffler":
        return hd.ToShuffler(s["name"])
    if k == "fault":
        return hd.Fault(loss=s["loss"], occur_freq=0, downtime_min=1, downtime_max=2, seed=s["seed"])
    if k == "affine":
        return globals()["Affine"](s["a"], s["c"])
    if k == "inplace":
        return globals()["InPlace"](s["c"])
    if k == "mix":
        return globals()["Mix"](s["inputs"], s["out"], s["keep"])
    if k == "shift":
        return globals()["Shift"](s["name"], s["c"])
    raise AssertionError(k)


def plug_of(s):
    """(inputs, outputs) or None for a free plug"""
    k = s["k"]
    if k in ("clip", "repeat", "affine", "inplace"):
        return None
    if k == "rename":
        return list(s["map"]), list(s["map"].values())
    if k == "drop":
        return (list(s["names"]) if isinstance(s["names"], list) else [s["names"]]), []
    if k == "to_shuffler":
        return [s["name"]], ["to_shuffler"]
    if k == "fault":
        return ["quantity"], ["quantity"]
    if k == "mix":
        return list(s["inputs"]), [s["out"]] + (list(s["inputs"]) if s["keep"] else [])
    if k == "shift":
        return [s["name"]], [s["name"]]
    raise AssertionError(k)


def chain(a, b):
    """Plug arithmetic of the documentation. Plugs: None (free) or (inputs, outputs). Returns None if not linkable, else (plug,)"""
    if b is None:
        return (a,)
    if a is None:
        return (b,)
    if not all(e in a[1] for e in b[0]):
        return None
    return ((a[0], b[1] + [e for e in a[1] if e not in b[0] and e not in b[1]]),)


def chain_all(plugs):
    p = (plugs[0],)
    for q in plugs[1:]:
        p = chain(p[0], q)
        if p is None:
            return None
    return p


def apply(s, t):
    """Reference semantics of a stage on a Table"""
    k = s["k"]
    out = {}
    if k == "clip":
        lo, hi = s["lower"], s["upper"]
        for c, v in t.cols.items():
            w = [x if lo is None or x >= lo else lo for x in v]
            out[c] = [x if hi is None or x <= hi else hi for x in w]
    elif k in ("rename", "to_shuffler"):
        m = s["map"] if k == "rename" else {s["name"]: "to_shuffler"}
        for (scn, name), v in t.cols.items():
            out[scn, m.get(name, name)] = v
    elif k == "drop":
        names = plug_of(s)[0]
        out = {c: v for c, v in t.cols.items() if c[1] not in names}
    elif k == "repeat":
        pos = {x: i for i, x in enumerate(t.scenarios)}
        for i in range(s["n"]):
            for (scn, name), v in t.cols.items():
                out[i * len(pos) + pos[scn], name] = list(v)
    elif k == "fault":
        out = t.cols
    elif k == "affine":
        out = {c: [x * s["a"] + s["c"] for x in v] for c, v in t.cols.items()}
    elif k == "inplace":
        out = {c: [x + s["c"] for x in v] for c, v in t.cols.items()}
    elif k == "shift":
        out = {c: [x + s["c"] * c[0] for x in v] if c[1] == s["name"] else v for c, v in t.cols.items()}
    elif k == "mix":
        for scn in t.scenarios:
            total = [sum(t.cols[scn, i][j] for i in s["inputs"]) * (1 + j) for j in range(len(t.index))]
            for (q, name), v in t.cols.items():
                if q == scn and (s["keep"] or name not in s["inputs"]):
                    out[q, name] = v
            out[scn, s["out"]] = total
    return Table(t.index, {c: list(v) for c, v in out.items()})


def draw_stage(draw, names, free=None, taken=()):
    """A stage able to run on columns `names`; kinds restricted to free-plug ones if free."""
    kinds = ["clip", "repeat", "affine", "inplace"] + ([] if free else ["rename", "drop", "mix", "mix", "shift", "to_shuffler"])
    if not free and "quantity" in names:
        kinds += ["fault"]
    if len(names) < 2:
        kinds = [k for k in kinds if k != "drop"]
    if "to_shuffler" in names or "to_shuffler" in taken:
        kinds = [k for k in kinds if k != "to_shuffler"]
    if not names:
        kinds = ["affine"]
    k = draw(st.sampled_from(kinds))
    if k == "clip":
        lo = draw(st.none() | st.integers(-40, 30))
        hi = draw(st.none() | st.integers(31, 90))
        if draw(st.integers(0, 2)) == 2:  # decimals
            lo, hi = (None if lo is None else lo + 0.25), (None if hi is None else hi - 0.375)
        if draw(st.integers(0, 3)) == 3:  # particular boundaries
            lo, hi = sorted([draw(st.sampled_from([-40, -5, -1, 0, 0.0, 1, 12, 90])), draw(st.sampled_from([-7, -1, 0, 0.0, 1, 30, 1e6]))])
            lo, hi = draw(st.sampled_from([(lo, hi), (lo, hi), (lo, None), (None, hi)]))
        return {"k": k, "lower": lo, "upper": hi}
    if k == "repeat":
        return {"k": k, "n": draw(st.integers(1, 3))}
    if k == "affine":
        return {"k": k, "a": draw(st.sampled_from([2, -1, 0.5, 1])), "c": draw(st.integers(-5, 5))}
    if k == "inplace":
        return {"k": k, "c": draw(st.integers(1, 9))}
    if k == "rename":
        src = draw(st.lists(st.sampled_from(names), min_size=1, max_size=min(2, len(names)), unique=True))
        fresh = [c for c in ["r1", "r2", "r3", "mean", "alpha", "r4", "r5"] if c not in names and c not in taken]
        if len(src) == 2 and draw(st.integers(0, 3)) == 0:  # swap
            return {"k": k, "map": {src[0]: src[1], src[1]: src[0]}}
        return {"k": k, "map": {s: fresh[i] for i, s in enumerate(src)}}
    if k == "drop":
        sub = draw(st.lists(st.sampled_from(names), min_size=1, max_size=min(2, len(names) - 1), unique=True))
        return {"k": k, "names": sub[0] if len(sub) == 1 and draw(st.booleans()) else sub}
    if k == "to_shuffler":
        return {"k": k, "name": draw(st.sampled_from(names))}
    if k == "fault":
        return {"k": k, "loss": draw(st.integers(1, 20)), "seed": draw(st.sampled_from([None, 0, 5]))}
    if k == "shift":
        return {"k": k, "name": draw(st.sampled_from(names)), "c": draw(st.integers(1, 9))}
    sub = draw(st.lists(st.sampled_from(names), min_size=1, max_size=min(2, len(names)), unique=True))
    fresh = [c for c in ["m1", "m2", "m3", "m4", "m5", "m6", "m7"] if c not in names and c not in taken]
    return {"k": "mix", "inputs": sub, "out": fresh[0] if fresh else sub[0], "keep": draw(st.booleans())}


def draw_pipeline(draw, t, max_stages=5):
    """A list of stages that can be linked and run on table description t"""
    names = list(t["names"])
    plug = None
    ref = table(t)
    stages = []
    for i in range(draw(st.integers(1, max_stages))):
        usable = names if plug is None else [n for n in plug[1] if n in names]
        s = draw_stage(draw, usable, free=not usable, taken=names)
        if s["k"] == "drop" and len(set(names) - set(plug_of(s)[0])) == 0:
            continue
        nxt = (plug_of(s),) if not stages else chain(plug, plug_of(s))
        if nxt is None:
            continue
        out = apply(s, ref)
        if len(out.scenarios) > 24:
            continue
        stages.append(s)
        plug = nxt[0]
        ref = out
        names = ref.names
    if not stages:
        stages = [{"k": "affine", "a": 2, "c": 1}]
    return stages


def build_pipeline(objs, how):
    """The three ways to make a pipeline"""
    import hadar as hd
    from hadar.workflow.pipeline import Pipeline

    if len(objs) == 1 or how == "list":
        return Pipeline(stages=list(objs))
    p = objs[0] + objs[1]
    for o in objs[2:]:
        if how == "iadd":
            p += o
        else:
            p = p + o
    return p
