"""Shuffler: what comes out is made of rows that went in, drawn by the sampler, under every schedule of the pool."""
import hadar as hd
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import flow, pool
from vlib.core import Sub, expect, reading, sut

ASSUMPTIONS = [
    "process pool replaced by a deterministic stand-in with the same visible behaviour (private random state per worker, pickling) except "
    "in the cases labelled 'real process pool'",
    "independence is only decided where a coincidence has a probability below 1e-12",
]


def first(low, high, size):
    return np.full(size, low)


def last(low, high, size):
    return np.full(size, high - 1)


def cycle(low, high, size):
    return low + np.arange(size) % (high - low)


def backward(low, high, size):
    return high - 1 - np.arange(size) % (high - low)


def uneven(low, high, size):
    """picks depending on how many are asked"""
    return low + (np.arange(size) ** 2 + size) % (high - low)


def listed(low, high, size):
    return [low + (3 * i + 1) % (high - low) for i in range(size)]


SAMPLERS = {"uneven": uneven, "listed": listed, "first": first, "last": last, "cycle": cycle, "backward": backward}


@st.composite
def cases(draw):
    srcs = []
    for i in range(draw(st.integers(1, 5))):
        name = draw(st.sampled_from(["solar", "load", "wind", "a", "b", "", "solar 2", "solar ", "Solar", "1"]))
        if draw(st.booleans()):
            srcs.append({"name": name, "rows": draw(st.integers(1, 6)), "h": draw(st.integers(1, 5)) if draw(st.integers(0, 14)) else draw(st.sampled_from([25, 169, 400])), "seed": draw(st.integers(0, 10 ** 6)),
                         "ints": draw(st.booleans())})
        else:
            t = flow.draw_table(draw)
            st_ = [s for s in flow.draw_pipeline(draw, t, 3)]
            if draw(st.integers(0, 5)) == 5 and not any(s["k"] in ("fault", "mix", "shift") for s in st_):
                t = {**t, "names": t["names"] + [""]}  # a further column, without name
            srcs.append({"name": name, "table": t, "stages": st_, "pick": draw(st.integers(0, 5))})
    return {"sources": srcs, "nb": draw(st.integers(1, 9)), "sampler": draw(st.sampled_from([None, None, "first", "last", "cycle", "backward", "uneven", "uneven", "listed"])),
            "real": draw(st.integers(0, 59)) == 59, "sched": draw(st.lists(st.integers(0, 7), min_size=0, max_size=5)), "again": draw(st.booleans())}


def raw_data(s):
    """distinct rows"""
    r = np.random.RandomState(s["seed"])
    a = r.randint(0, 10 ** 6, size=(s["rows"], s["h"])) if s["ints"] else np.round(r.uniform(0, 1000, size=(s["rows"], s["h"])), 4)
    a[:, 0] = np.arange(s["rows"]) * 10 ** 7 + a[:, 0]
    return a


def decide(case, rec):
    sh = hd.Shuffler() if case["sampler"] is None else hd.Shuffler(sampler=SAMPLERS[case["sampler"]])
    hd.Shuffler(sampler=SAMPLERS["first" if case["nb"] % 2 else "last"]).add_data(name="solar", data=np.array([[-7.0]]))  # somebody else's
    want = {}
    given = []
    for s in case["sources"]:
        if "rows" in s:
            a = raw_data(s)
            given.append((a, a.copy()))
            back = sut("add_data", sh.add_data, name=s["name"], data=a)
            want[s["name"]] = a.astype(float)
        else:
            stages = list(s["stages"])
            ref = flow.table(s["table"])
            for x in stages:
                ref = flow.apply(x, ref)
            plug = flow.chain_all([flow.plug_of(x) for x in stages])[0]
            if "to_shuffler" not in ref.names or plug is None or "to_shuffler" not in plug[1]:
                usable = ref.names if plug is None else [n for n in plug[1] if n in ref.names]
                if not usable or "to_shuffler" in ref.names:
                    continue
                x = {"k": "to_shuffler", "name": usable[s["pick"] % len(usable)]}
                stages.append(x)
                ref = flow.apply(x, ref)
            df = flow.frame(s["table"])
            given.append((df, df.copy()))
            pipe = sut("building pipeline", flow.build_pipeline, [flow.make(x) for x in stages], "list")
            back = sut("add_pipeline", sh.add_pipeline, name=s["name"], data=df, pipeline=pipe)
            want[s["name"]] = np.array([v for (_, n), v in ref.cols.items() if n == "to_shuffler"], dtype=float)
        expect(back is sh, "adding a source does not return the shuffler")
    nb = case["nb"]
    for turn in range(2 if case["again"] else 1):
        if case["real"]:
            with pool.real():
                res = sut("shuffle", sh.shuffle, nb)
        else:
            with pool.schedule(case["sched"], 4):
                res = sut("shuffle", sh.shuffle, nb)
        with reading("shuffle"):
            expect(set(res) == set(want), "shuffle gives %s, sources are %s", sorted(res), sorted(want))
            for name, rows in want.items():
                got = np.asarray(res[name], dtype=float)
                expect(got.shape == (nb, rows.shape[1]), "%s has shape %s instead of %s", name, got.shape, (nb, rows.shape[1]))
                for i in range(nb):
                    ok = (np.abs(rows - got[i]) <= 1e-9 * np.maximum(1, np.abs(rows))).all(axis=1)
                    expect(ok.any(), "%s: scenario %d drawn (%s) is none of the source's scenarios", name, i, got[i].tolist())
                if case["sampler"]:
                    idx = SAMPLERS[case["sampler"]](0, rows.shape[0], nb)
                    expect(np.allclose(got, rows[idx], rtol=1e-9, atol=1e-9), "%s: the sampler's choice %s is not honoured", name, list(idx))
    for x, y in given:
        same = x.equals(y) and list(x.columns) == list(y.columns) if isinstance(x, pd.DataFrame) else np.array_equal(x, y)
        expect(same, "shuffler modified the data it was given")
    rec.nontrivial = len(want) >= 2 and nb > 1
    rec.label("real process pool" if case["real"] else None, "sampler %s" % case["sampler"],
              "pipeline source" if any("table" in s for s in case["sources"]) else None)


@st.composite
def random_cases(draw):
    k = draw(st.integers(1, 6))
    rows = draw(st.sampled_from([25, 40]))
    return {"kinds": [draw(st.sampled_from(["raw", "raw", "pipe"])) for _ in range(k)], "rows": rows, "nb": rows * 45,
            "sched": draw(st.lists(st.integers(0, 7), min_size=0, max_size=6)), "seed": draw(st.none() | st.integers(0, 100)), "real": draw(st.integers(0, 19)) == 19}


def independence(case, rec):
    """Default sampler: every scenario can come, sources are drawn independently, a second shuffle draws again."""
    rows, nb = case["rows"], case["nb"]
    if case["seed"] is not None:
        np.random.seed(case["seed"])
    sh = hd.Shuffler()
    data = np.arange(rows, dtype=float).reshape(rows, 1) * np.ones((1, 3))
    for i, k in enumerate(case["kinds"]):
        if k == "raw":
            sut("add_data", sh.add_data, name="s%d" % i, data=data.copy())
        else:
            df = pd.DataFrame({(r, "q"): data[r] for r in range(rows)})
            sut("add_pipeline", sh.add_pipeline, name="s%d" % i, data=df, pipeline=sut("pipeline", lambda: hd.Clip() + hd.ToShuffler("q")))
    draws = []
    for turn in range(2):
        if case["real"]:
            with pool.real():
                res = sut("shuffle", sh.shuffle, nb)
        else:
            with pool.schedule(case["sched"], 8):
                res = sut("shuffle", sh.shuffle, nb)
        with reading("shuffle"):
            for i in range(len(case["kinds"])):
                a = np.asarray(res["s%d" % i], dtype=float)
                expect(a.shape == (nb, 3), "shape %s", a.shape)
                d = a[:, 0].astype(int)
                draws.append((turn, i, d))
                c = np.bincount(d, minlength=rows)
                expect((c > 0).all(), "source %d: scenario(s) %s never drawn in %d draws", i, np.where(c == 0)[0][:5].tolist(), nb)
                expect(len(c) == rows and c.max() <= 45 + 10 * 45 ** 0.5, "source %d: scenario %d drawn %d times, 45 expected", i, c.argmax(), c.max())
    for x in range(len(draws)):
        for y in range(x):
            expect(not np.array_equal(draws[x][2], draws[y][2]), "source %d (shuffle %d) and source %d (shuffle %d) drew the same %d scenarios",
                   draws[x][1], draws[x][0] + 1, draws[y][1], draws[y][0] + 1, nb)
    rec.nontrivial = len(case["kinds"]) > 2
    rec.label("real process pool" if case["real"] else None, "user seed" if case["seed"] is not None else None)


@st.composite
def small_cases(draw):
    """As users do: a few scenarios out of a source, again and again."""
    return {"sources": [{"kind": draw(st.sampled_from(["raw", "pipe"])), "rows": draw(st.sampled_from([2, 3, 4, 5, 7, 9, 13]))} for _ in range(draw(st.integers(1, 3)))],
            "nb": draw(st.integers(1, 12)), "sched": draw(st.lists(st.integers(0, 7), min_size=0, max_size=6)), "new": draw(st.booleans())}


def evenly(case, rec):
    """Over many small shuffles, every scenario comes at every place equally often, whatever comes elsewhere."""
    nb = case["nb"]
    srcs = case["sources"]

    def build():
        sh = hd.Shuffler()
        for i, s in enumerate(srcs):
            data = np.arange(s["rows"], dtype=float).reshape(-1, 1) * np.ones((1, 2))
            if s["kind"] == "raw":
                sut("add_data", sh.add_data, name="s%d" % i, data=data)
            else:
                df = pd.DataFrame({(r, "q"): data[r] for r in range(s["rows"])})
                sut("add_pipeline", sh.add_pipeline, name="s%d" % i, data=df, pipeline=sut("pipeline", lambda: hd.Clip() + hd.ToShuffler("q")))
        return sh

    sh = build()
    turns = 45 * max(s["rows"] for s in srcs)
    draws = [np.empty((turns, nb), dtype=int) for _ in srcs]
    for k in range(turns):
        if case["new"] and k % 50 == 49:
            sh = build()
        with pool.schedule(case["sched"], 4):
            res = sut("shuffle", sh.shuffle, nb)
        with reading("shuffle"):
            for i in range(len(srcs)):
                draws[i][k] = np.asarray(res["s%d" % i])[:, 0].astype(int)
    for i, s in enumerate(srcs):
        for j in range(nb):
            mean = turns / s["rows"]
            c = np.bincount(draws[i][:, j], minlength=s["rows"])
            expect((c > 0).all(), "source %d: scenario(s) %s never drawn at place %d in %d shuffles", i, np.where(c == 0)[0][:5].tolist(), j, turns)
            expect(len(c) == s["rows"] and c.max() <= mean + 10 * mean ** 0.5, "source %d: scenario %d drawn %d times at place %d, %d expected", i, c.argmax(), c.max(), j, mean)
        flat = [("place %d of source %d" % (j, i), draws[i][:, j]) for j in range(nb)]
        for x in range(len(flat)):
            for y in range(x):
                expect(not np.array_equal(flat[x][1], flat[y][1]), "%s and %s always drew the same scenario", flat[x][0], flat[y][0])
        for a in range(i):
            if srcs[a]["rows"] == s["rows"]:
                expect(not np.array_equal(draws[a], draws[i]), "sources %d and %d always drew the same scenarios", a, i)
    rec.nontrivial = nb > 1
    rec.label("fewer asked than the source has" if any(nb < s["rows"] for s in srcs) else None, "one source" if len(srcs) == 1 else None)


@st.composite
def fault_cases(draw):
    return {"sources": [{"repeat": draw(st.integers(0, 3)), "seed": draw(st.sampled_from([None, None, 0, 3]))} for _ in range(draw(st.integers(1, 3)))],
            "nb": draw(st.integers(1, 5)), "sched": draw(st.lists(st.integers(0, 7), min_size=0, max_size=6)), "raw": draw(st.booleans()),
            "user_seed": draw(st.none() | st.integers(0, 50)), "shared": draw(st.booleans()), "real": draw(st.integers(0, 39)) == 39}


def random_pipelines(case, rec):
    """Pipelines with random faults: new faults for each source and shuffle, unless a seed was given."""
    h = 250
    sh = hd.Shuffler()
    one = None
    for i, s in enumerate(case["sources"]):
        df = pd.DataFrame({"quantity": np.full(h, 1000.0)})
        if one is None or not case["shared"]:
            stages = [hd.RepeatScenario(s["repeat"])] if s["repeat"] else []
            stages += [hd.Fault(loss=1, occur_freq=0.4, downtime_min=1, downtime_max=9, seed=s["seed"]), hd.ToShuffler("quantity")]
            one = (sut("pipeline", flow.build_pipeline, stages, "list"), s["seed"])
        s["used"] = one[1]
        sut("add_pipeline", sh.add_pipeline, name="s%d" % i, data=df, pipeline=one[0])
    if case["raw"]:
        sut("add_data", sh.add_data, name="raw", data=np.arange(6.0).reshape(2, 3))
    seen = {}
    for turn in range(3):
        if case["user_seed"] is not None:
            np.random.seed(case["user_seed"])
        with pool.real() if case["real"] else pool.schedule(case["sched"], 4):
            res = sut("shuffle", sh.shuffle, case["nb"])
        with reading("shuffle"):
            for i, s in enumerate(case["sources"]):
                rows = {tuple(r) for r in np.asarray(res["s%d" % i], dtype=float).tolist()}
                expect(all(len(r) == h and min(r) < 1000 for r in rows), "source %d: no fault at all", i)
                for r in rows:
                    where = (turn, i)
                    if s["used"] is None:
                        expect(seen.setdefault(r, where) == where, "source %d in shuffle %d has exactly the faults of source %d in shuffle %d",
                               i, turn + 1, *[seen[r][1], seen[r][0] + 1])
                    else:
                        expect(seen.setdefault(("seed", s["used"]), r) == r, "the same seed %d gives other faults", s["used"])
    rec.nontrivial = any(s["used"] is None for s in case["sources"])
    rec.label("one source" if len(case["sources"]) == 1 and not case["raw"] else None, "seeded" if any(s["used"] is not None for s in case["sources"]) else None,
              "pipeline shared by sources" if case["shared"] and len(case["sources"]) > 1 else None)


SUBS = [
    Sub("rows", cases, decide, 2500, rule="at least two sources and two scenarios drawn"),
    Sub("independence", random_cases, independence, 400, rule="at least three sources"),
    Sub("evenly", small_cases, evenly, 80, rule="at least two scenarios drawn"),
    Sub("random", fault_cases, random_pipelines, 400, rule="a source with unseeded faults"),
]
