from hypothesis import strategies as st
from vlib.core import Sub, expect
from vlib.gen import study_spec
from checks.optim import shape_labels, solve

ASSUMPTIONS = ["tolerance 1e-6 of the largest quantity of the study (simplex feasibility tolerance)"]


@st.composite
def cases(draw):
    s = study_spec(draw, big=True, dense=True)
    if not s["converters"]:
        s2 = study_spec(draw, big=True, dense=True)
        s = s2 if s2["converters"] else s
    return s


def decide(case, rec):
    d, plan, _, _ = solve(case)
    running = 0
    for k, v in d.conv.items():
        p = plan.conv[k]
        expect((p["dest"] <= v["max"] + d.tol).all(), "converter %s output above its maximum", k)
        for src, r in v["src"].items():
            gap = abs(p["src"][src] * r - p["dest"])
            i = divmod(int(gap.argmax()), d.h)
            expect(
                gap.max() <= 10 * d.tol,
                "converter %s source %s scenario %d step %d: input %g * ratio %g != output %g",
                k, src, i[0], i[1], p["src"][src][i], r[i], p["dest"][i],
            )
        running += int(p["dest"].sum() > d.tol)
    rec.nontrivial = running > 0
    rec.label("2 running converters" if running > 1 else None)
    shape_labels(case, rec)


SUBS = [Sub("ratio", cases, decide, 4000, rule="at least one converter output is positive")]
