"""Random faults: what must hold for every draw."""
import math

import hadar as hd
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from vlib import flow
from vlib.core import Sub, expect, reading, sut

ASSUMPTIONS = [
    "statistical bounds are 10 standard deviations wide, so a false alarm is not expected in the life of the project",
]


def counts(before, after, loss, what):
    """How many faults hit each step"""
    k = (np.asarray(before, float) - np.asarray(after, float)) / loss
    expect(np.isfinite(k).all(), "%s: quantity is not a number", what)
    r = np.round(k)
    expect((abs(k - r) < 1e-6).all(), "%s: quantity drops by %s times the loss", what, k[abs(k - r) >= 1e-6][:3])
    expect((r >= 0).all(), "%s: quantity grew", what)
    return r.astype(int)


def shape(k, dmin, what):
    """Runs of faulty steps are at least downtime_min long unless cut by the horizon."""
    h = len(k)
    t = 0
    while t < h:
        if k[t] == 0:
            t += 1
            continue
        e = t
        while e < h and k[e] > 0:
            e += 1
        expect(e - t >= dmin or e == h, "%s: fault from %d to %d is shorter than %d", what, t, e, dmin)
        t = e


@st.composite
def small_cases(draw):
    t = flow.draw_table(draw, names=None, need=("quantity",))
    t["h"] = draw(st.integers(1, 30))
    dmin = draw(st.integers(1, 6))
    return {"table": t, "loss": draw(st.sampled_from([1, 7, 20, 0.5, 100])), "freq": draw(st.sampled_from([0, 0.05, 0.2, 0.5, 1, 1])),
            "dmin": dmin, "dmax": dmin + draw(st.sampled_from([0, 0, 1, 3, 10])), "seed": draw(st.sampled_from([None, None, 0, 1, 42])),
            "pipe": draw(st.booleans())}


def small(case, rec):
    t = case["table"]
    df = flow.frame(t)
    stage = sut("Fault", hd.Fault, loss=case["loss"], occur_freq=case["freq"], downtime_min=case["dmin"], downtime_max=case["dmax"], seed=case["seed"])
    run = sut("pipeline", lambda: hd.Clip() + stage) if case["pipe"] else stage
    keep = df.copy()
    out = flow.read_frame(sut("Fault", run, df), "fault output")
    expect(df.equals(keep) and list(df.columns) == list(keep.columns), "fault stage modified the data given")
    ref = flow.table(t)
    # nothing but the quantity moves
    expect(out.index == ref.index, "time index changed: %s", out.index)
    expect(set(out.cols) == set(ref.cols), "columns %s became %s", list(ref.cols), list(out.cols))
    h = t["h"]
    hit = 0
    for (scn, name), v in ref.cols.items():
        if name != "quantity":
            expect(out.cols[scn, name] == [float(x) for x in v], "column %s changed", (scn, name))
            continue
        what = "scenario %s" % scn
        k = counts(v, out.cols[scn, name], case["loss"], what)
        hit += int((k > 0).any())
        if case["freq"] == 0:
            expect(not k.any(), "%s: fault although they never occur", what)
        shape(k, case["dmin"], what)
        expect(k.sum() <= h * case["dmax"], "%s: %d faulty step-units out of at most %d", what, k.sum(), h * case["dmax"])
        expect(k[0] <= h and k.max() <= h, "%s: more faults than steps", what)
        if case["freq"] == 1:
            # one fault per step of the horizon, each at least one step long
            lo = sum(1 for _ in range(h))
            expect(k.sum() >= lo, "%s: %d faulty step-units although a fault occurs at each of the %d steps", what, k.sum(), h)
            if case["dmax"] == 1:
                expect(k.sum() == h, "%s: %d faulty step-units, %d faults of one step", what, k.sum(), h)
    if case["seed"] is not None:
        again = flow.read_frame(sut("Fault again", run, df), "fault output")
        flow.same_table(again, out, "second run with the same seed")
        other = sut("Fault", hd.Fault, loss=case["loss"], occur_freq=case["freq"], downtime_min=case["dmin"], downtime_max=case["dmax"], seed=case["seed"])
        np.random.seed(99)
        flow.same_table(flow.read_frame(sut("Fault", other, df), "fault output"), out, "another stage with the same seed")
    rec.nontrivial = hit > 0 and h > case["dmin"]
    rec.label("seeded" if case["seed"] is not None else None, "no fault" if not hit else None, "freq %s" % case["freq"])


@st.composite
def big_cases(draw):
    dmin = draw(st.integers(1, 8))
    return {"h": draw(st.sampled_from([2000, 4000])), "dmin": dmin, "dmax": dmin + draw(st.sampled_from([0, 1, 2, 5, 12])),
            "freq": draw(st.sampled_from([1, 0.5, 0.2, 0.05])), "loss": draw(st.sampled_from([1, 13])), "n": draw(st.integers(2, 3)),
            "seed": draw(st.sampled_from([None, None, 0, 7, 123]))}


def big(case, rec):
    """Long horizons: occurrence, duration, position and independence, each within 10 standard deviations."""
    h, f, a, b = case["h"], case["freq"], case["dmin"], case["dmax"]
    df = pd.DataFrame({(s, "quantity"): np.full(h, 1000.0) for s in range(case["n"])})
    stage = sut("Fault", hd.Fault, loss=case["loss"], occur_freq=f, downtime_min=a, downtime_max=b, seed=case["seed"])
    out = flow.read_frame(sut("Fault", stage, df), "fault output")
    m = (a + b) / 2.0
    var_d = ((b - a + 1) ** 2 - 1) / 12.0
    ks = []
    for s in range(case["n"]):
        with reading("fault output"):
            k = counts(np.full(h, 1000.0), out.cols[s, "quantity"], case["loss"], "scenario %d" % s)
        ks.append(k)
        # compound sum of N durations, N ~ Binomial(h, f)
        mean, var = h * f * m, h * f * var_d + h * f * (1 - f) * m * m
        cut = f * b * b  # durations lost beyond the horizon, on average at most
        tol = 10 * math.sqrt(var) + 4 * cut + 4 * b
        expect(abs(k.sum() - mean) <= tol, "scenario %d: %d faulty step-units, expected %.0f +- %.0f (occurrence %s, downtime %d..%d, horizon %d)",
               s, k.sum(), mean, tol, f, a, b, h)
        # spread over the horizon: both halves get their share
        for half in (k[b: h // 2], k[h // 2:]):
            n = len(half)
            mu = n * f * m
            sd = math.sqrt(n * f * (m * m + var_d) * 1.0 + h * f * 0.25 * m * m)
            expect(abs(half.sum() - mu) <= 10 * sd + 4 * b, "scenario %d: %d faulty step-units in one half, expected %.0f +- %.0f", s, half.sum(), mu, 10 * sd + 4 * b)
    if case["seed"] is None:
        expect(any((ks[0] != k).any() for k in ks[1:]), "every scenario got the same faults")
        again = flow.read_frame(sut("Fault", stage, df), "fault output")
        expect((counts(np.full(h, 1000.0), again.cols[0, "quantity"], case["loss"], "again") != ks[0]).any(), "two runs without seed gave the same faults")
    rec.nontrivial = True


@st.composite
def edge_cases(draw):
    dmin = draw(st.integers(1, 5))
    return {"h": draw(st.integers(2, 40)), "dmin": dmin, "dmax": dmin + draw(st.sampled_from([0, 0, 1, 2, 3, 7])),
            "freq": draw(st.sampled_from([1, 0.6, 0.3, 0.1])), "n": draw(st.sampled_from([200, 400])), "loss": draw(st.sampled_from([1, 9]))}


def edges(case, rec):
    """Step by step over many scenarios: each step is as exposed as any other, the first and last ones included.

    Faults over step t of one scenario are Binomial(h, f * E[min(D, t + 1)] / h), whether faults are placed one by one or step by step,
    so their total over n scenarios has a variance below its mean."""
    h, f, a, b, n = case["h"], case["freq"], case["dmin"], case["dmax"], case["n"]
    df = pd.DataFrame(np.full((h, n), 500.0), columns=pd.MultiIndex.from_tuples([(s, "quantity") for s in range(n)]))
    stage = sut("Fault", hd.Fault, loss=case["loss"], occur_freq=f, downtime_min=a, downtime_max=b)
    with reading("fault output"):
        out = sut("Fault", stage, df)
        expect(out.shape == (h, n), "shape %s became %s", (h, n), out.shape)
        k = counts(np.full((h, n), 500.0), out.values, case["loss"], "faults")
    tot = k.sum(axis=1)
    lens = range(a, b + 1)
    for t in range(h):
        mu = n * f * sum(min(d, t + 1) for d in lens) / len(lens)
        tol = 10 * math.sqrt(mu) + 20
        expect(abs(tot[t] - mu) <= tol, "step %d of %d: %d faults over %d scenarios, expected %.0f +- %.0f (occurrence %s, downtime %d..%d)",
               t, h, tot[t], n, mu, tol, f, a, b)
    rec.nontrivial = h > b


@st.composite
def length_cases(draw):
    dmin = draw(st.integers(1, 12))
    return {"dmin": dmin, "dmax": dmin + draw(st.integers(0, 3)), "loss": draw(st.sampled_from([1, 9]))}


def lengths(case, rec):
    """Rare faults over many scenarios: every downtime from the smallest to the largest happens, and lone faults respect them."""
    a, b = case["dmin"], case["dmax"]
    h, n = 400, 600
    df = pd.DataFrame(np.full((h, n), 500.0), columns=pd.MultiIndex.from_tuples([(s, "quantity") for s in range(n)]))
    stage = sut("Fault", hd.Fault, loss=case["loss"], occur_freq=1 / h, downtime_min=a, downtime_max=b)
    with reading("fault output"):
        out = sut("Fault", stage, df)
        k = counts(np.full((h, n), 500.0), out.values, case["loss"], "faults")
    seen = {}
    for s in range(n):
        shape(k[:, s], a, "scenario %d" % s)
        edge = np.flatnonzero(np.diff(np.concatenate([[0], (k[:, s] > 0).astype(int), [0]])))
        for x, y in zip(edge[::2], edge[1::2]):
            if y < h:
                seen[y - x] = seen.get(y - x, 0) + 1
    # about 600 lone faults, shared by at most 4 downtimes: a downtime missed by chance has a probability below 1e-40
    for d in range(a, b + 1):
        expect(seen.get(d, 0) > 0, "downtime %d never seen for %d..%d (seen: %s)", d, a, b, seen)
    # longer runs need two faults close to each other: expected below 600 * 0.5 * 4 * 15 / 400 = 45 in total
    over = sum(c for d, c in seen.items() if d > b)
    expect(over <= 150, "%d faults out of %d last more than %d steps", over, sum(seen.values()), b)
    rec.nontrivial = b > a


SUBS = [
    Sub("edges", edge_cases, edges, 240, rule="horizon longer than the downtime"),
    Sub("lengths", length_cases, lengths, 64, rule="several downtimes possible"),
    Sub("small", small_cases, small, 3000, rule="at least one fault happened on a horizon longer than the downtime"),
    Sub("statistics", big_cases, big, 400, rule="always"),
]
