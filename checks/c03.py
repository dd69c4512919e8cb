import numpy as np

from hypothesis import strategies as st
from vlib.core import Sub, expect
from vlib.gen import studies, study_spec
from checks.optim import any_studies, judged, loose, shape_labels, solve

ASSUMPTIONS = ["tolerance 1e-6 of the largest quantity of the study (simplex feasibility tolerance)"]


@st.composite
def cases(draw):
    return loose(draw, big=True, max_networks=2, max_nodes=3, dense=True)


@judged
def decide(case, rec):
    d, plan, _, _ = solve(case)
    active = 0
    for k, s in d.stor.items():
        p = plan.stor[k]
        prev = np.full(d.n, s["init"])
        for t in range(d.h):
            want = prev + s["eff"][:, t] * p["flow_in"][:, t] - p["flow_out"][:, t]
            gap = abs(p["capacity"][:, t] - want)
            i = int(gap.argmax())
            expect(
                gap[i] <= 10 * d.tol,
                "storage %s scenario %d step %d: level %g but previous %g + eff %g * in %g - out %g = %g",
                k, i, t, p["capacity"][i, t], prev[i], s["eff"][i, t], p["flow_in"][i, t], p["flow_out"][i, t], want[i],
            )
            prev = p["capacity"][:, t]
        # no energy out of nothing over the horizon
        out, inn = p["flow_out"].sum(axis=1), (s["eff"] * p["flow_in"]).sum(axis=1)
        expect((out <= s["init"] + inn + 10 * d.h * d.tol).all(), "storage %s delivers more than it received", k)
        active += int(p["flow_out"].sum() > d.tol or p["flow_in"].sum() > d.tol)
    rec.nontrivial = active > 0
    shape_labels(case, rec)
    rec.label("2 active storages" if active > 1 else None)
    if any(p["flow_in"].sum() > d.tol for p in plan.stor.values()):
        rec.label("storage charged")


SUBS = [Sub("continuity", cases, decide, 4000, rule="at least one storage charges or discharges")]
