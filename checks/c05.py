import hadar as hd
from hypothesis import strategies as st
from vlib import pool
from vlib.core import Sub, Violation, expect
from vlib.gen import studies, study_spec
from vlib.model import Dense, Plan, build, cost_scale, node_residual, plan_cost, reference, require_elements
from checks.optim import shape_labels, solve

ASSUMPTIONS = [
    "reference minimum computed by CLP on an independent formulation; equality within 1e-7 of the money at stake",
    "costs: unserved*cost + produced*cost + stored level*cost + exchanged*cost + converter output*cost (documentation)",
]


def decide(case, rec):
    d, plan, _, _ = solve(case)
    cost = plan_cost(d, plan)
    tol = 1e-7 * cost_scale(d) + 1e-6
    for i in range(d.n):
        ok, best = reference(d, i)
        if not ok:
            raise RuntimeError("generator produced an infeasible study")
        got = float(cost[i].sum())
        expect(got <= best + tol, "scenario %d costs %.9g but a feasible plan costs %.9g", i, got, best)
        expect(got >= best - tol, "scenario %d costs %.9g below the minimum %.9g of feasible plans", i, got, best)
    shape_labels(case, rec)
    used = [k for k, a in plan.prod.items() if a.sum() > d.tol]
    unserved = any((q - plan.cons[k]).sum() > d.tol for k, (c, q) in d.cons.items())
    rec.label("loss of load" if unserved else None)
    rec.nontrivial = bool(used)


def infeasible(case, rec):
    """Storages that cannot hold / release what they must: error iff no plan exists in some scenario."""
    d = Dense(case)
    best = [reference(d, i) for i in range(d.n)]
    feas = [b[0] for b in best]
    study = build(hd, case)
    try:
        result = hd.LPOptimizer().solve(study)
    except Exception as e:
        expect(not all(feas), "solve raised %s: %s although every scenario has a plan", type(e).__name__, str(e)[:200])
        rec.nontrivial = True
        rec.label("infeasible", "partly infeasible" if any(feas) else None)
        return
    expect(all(feas), "solve returned a plan although scenario %s has none", [i for i, f in enumerate(feas) if not f])
    plan = Plan(case, result)
    require_elements(d, plan)
    for k, r in node_residual(d, plan).items():
        expect(abs(r).max() <= 10 * d.tol, "unbalanced plan returned")
    cost = plan_cost(d, plan)
    for i in range(d.n):
        expect(abs(cost[i].sum() - best[i][1]) <= 1e-7 * cost_scale(d) + 1e-6, "scenario %d costs %.9g, minimum is %.9g", i, cost[i].sum(), best[i][1])
    rec.label("feasible")


@st.composite
def tight(draw):
    return study_spec(draw, feasible=False, max_networks=1, max_nodes=2, converters=False, dense=True)


SUBS = [
    Sub("optimum", lambda: studies(big=True), decide, 3000, rule="at least one production runs"),
    Sub("infeasible", tight, infeasible, 1500, rule="no feasible plan exists and an error is raised"),
]
