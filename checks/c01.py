from vlib.core import Sub, expect
from vlib.gen import studies
from vlib.model import node_residual
from checks.optim import any_studies, judged, loose, shape_labels, solve

ASSUMPTIONS = ["tolerance 1e-6 of the largest quantity of the study (simplex feasibility tolerance)"]


@judged
def decide(case, rec):
    d, plan, _, _ = solve(case)
    for (net, node), r in node_residual(d, plan).items():
        bad = abs(r).max()
        expect(bad <= 10 * d.tol, "energy in - energy out = %g at node %s of network %s", bad, node, net)
    moved = sum(abs(a).sum() for a in plan.prod.values()) + sum(abs(a).sum() for a in plan.link.values())
    rec.nontrivial = moved > 0 and sum(abs(a).sum() for a in plan.cons.values()) > 0
    shape_labels(case, rec)
    if any(abs(a).sum() > d.tol for a in plan.link.values()):
        rec.label("link carries energy")
    if any(abs(v["dest"]).sum() > d.tol for v in plan.conv.values()):
        rec.label("converter runs")
    if any(s["flow_out"].sum() > d.tol for s in plan.stor.values()):
        rec.label("storage discharges")


SUBS = [Sub("balance", lambda: any_studies(big=True), decide, 4000, rule="some consumption is served by some production or link")]
