import numpy as np

from vlib.core import Sub, expect
from vlib.gen import studies
from checks.optim import any_studies, judged, loose, shape_labels, solve

ASSUMPTIONS = ["tolerance 1e-6 of the largest quantity of the study (simplex feasibility tolerance)"]


def inside(a, hi, tol, what):
    lo_gap, hi_gap = float((-a).max()), float((a - hi).max())
    if lo_gap > tol or hi_gap > tol:
        i = np.unravel_index(np.argmax(np.maximum(-a, a - hi)), a.shape)
        expect(False, "%s out of its limits at scenario %d step %d: %g not in [0, %g]", what, i[0], i[1], a[i], hi[i])


@judged
def decide(case, rec):
    d, plan, _, _ = solve(case)
    tol = d.tol
    tight = 0
    for k, (c, q) in d.cons.items():
        inside(plan.cons[k], q, tol, "consumption given %s" % (k,))
        tight += int(((q > tol) & (abs(plan.cons[k] - q) < tol)).any())
    for k, (c, q) in d.prod.items():
        inside(plan.prod[k], q, tol, "production used %s" % (k,))
        tight += int(((q > tol) & (abs(plan.prod[k] - q) < tol)).any())
    for k, (c, q) in d.link.items():
        inside(plan.link[k], q, tol, "link used %s" % (k,))
        tight += int(((q > tol) & (abs(plan.link[k] - q) < tol)).any())
    for k, s in d.stor.items():
        for f in ("capacity", "flow_in", "flow_out"):
            inside(plan.stor[k][f], s[f], tol, "storage %s %s" % (f, k))
    for k, v in d.conv.items():
        inside(plan.conv[k]["dest"], v["max"], tol, "converter output %s" % k)
        for src, r in v["src"].items():
            inside(plan.conv[k]["src"][src], v["max"] / r, tol, "converter input %s from %s" % (k, src))
    rec.nontrivial = tight > 0
    shape_labels(case, rec)


SUBS = [Sub("bounds", lambda: any_studies(big=True), decide, 4000, rule="at least one non-zero limit is reached (binding)")]
