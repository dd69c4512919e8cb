"""Independent model of a study: dense arrays, reference LP, costs, balances. Works on JSON specs only."""
import numpy as np


def dense(v, n, h):
    """Documented broadcasting: scalar everywhere, (h,) for every scenario, (n,1) for every step, (n,h) as is."""
    f, x = v["f"], v["v"]
    out = np.zeros((n, h))
    for i in range(n):
        for t in range(h):
            if f == "scalar":
                y = x
            elif f == "row":
                y = x[t]
            elif f == "col":
                y = x[i]
            else:
                y = x[i][t]
            out[i, t] = np.float32(y) if v.get("dt") == "32" and isinstance(y, float) else y
    return out


def raw(v):
    """The python/numpy/pandas object a user would pass."""
    import pandas as pd

    f, x, c = v["f"], v["v"], v.get("c", "np")
    if f == "scalar":
        return x
    if f == "col":
        x = [[y] for y in x]
    if c == "list":
        return [list(r) for r in x] if f != "row" else list(x)
    if c == "df":
        return pd.Series(list(x)) if f == "row" else pd.DataFrame([list(r) for r in x])
    if c == "dfi":  # labels that are not positions
        lab = ["d%d" % (7 * i % 5) + "x" * i for i in range(len(x))] if len(x) % 2 else list(range(len(x), 0, -1))
        return pd.Series(list(x), index=lab) if f == "row" else pd.DataFrame([list(r) for r in x], index=lab, columns=list(range(len(x[0]), 0, -1)))
    a = np.array(x)
    if c == "npf":  # same content, another memory layout
        a = np.repeat(a, 2)[::2] if a.ndim == 1 else np.asfortranarray(np.repeat(a, 2, axis=1))[:, ::2]
    if v.get("dt") == "32":
        a = a.astype(np.int32 if a.dtype.kind == "i" else np.float32)
    return a


def build(hd, spec, order=None):
    """Build the study with the public fluent API."""
    study = hd.Study(horizon=spec["horizon"], nb_scn=spec["nb_scn"])
    for net in spec["networks"]:
        sel = study.network(net["name"])
        for node in net["nodes"]:
            sel = sel.node(node["name"])
            for c in node["consumptions"]:
                sel = sel.consumption(name=c["name"], cost=raw(c["cost"]), quantity=raw(c["quantity"]))
            for p in node["productions"]:
                sel = sel.production(name=p["name"], cost=raw(p["cost"]), quantity=raw(p["quantity"]))
            for s in node["storages"]:
                sel = sel.storage(
                    name=s["name"], capacity=raw(s["capacity"]), flow_in=raw(s["flow_in"]),
                    flow_out=raw(s["flow_out"]), cost=raw(s["cost"]), init_capacity=s["init_capacity"],
                    eff=raw(s["eff"]),
                )
        for l in net["links"]:
            sel = sel.link(src=l["src"], dest=l["dest"], cost=raw(l["cost"]), quantity=raw(l["quantity"]))
    for v in spec["converters"]:
        for s in v["src"]:
            study.network(s["network"]).node(s["node"]).to_converter(name=v["name"], ratio=raw(s["ratio"]))
        study.network(v["to_network"]).converter(
            name=v["name"], to_network=v["to_network"], to_node=v["to_node"], max=raw(v["max"]), cost=raw(v["cost"])
        )
    return study


class Dense:
    """Flat view of a spec with dense arrays."""

    def __init__(self, spec):
        self.spec = spec
        self.h, self.n = h, n = spec["horizon"], spec["nb_scn"]
        D = lambda v: dense(v, n, h)
        self.nodes = [(net["name"], nd["name"]) for net in spec["networks"] for nd in net["nodes"]]
        self.cons, self.prod, self.stor, self.link = {}, {}, {}, {}
        for net in spec["networks"]:
            for nd in net["nodes"]:
                for c in nd["consumptions"]:
                    self.cons[net["name"], nd["name"], c["name"]] = (D(c["cost"]), D(c["quantity"]))
                for p in nd["productions"]:
                    self.prod[net["name"], nd["name"], p["name"]] = (D(p["cost"]), D(p["quantity"]))
                for s in nd["storages"]:
                    self.stor[net["name"], nd["name"], s["name"]] = {
                        **{k: D(s[k]) for k in ("capacity", "flow_in", "flow_out", "cost", "eff")},
                        "init": float(s["init_capacity"]),
                    }
            for l in net["links"]:
                self.link[net["name"], l["src"], l["dest"]] = (D(l["cost"]), D(l["quantity"]))
        self.conv = {
            v["name"]: {
                "dest": (v["to_network"], v["to_node"]), "max": D(v["max"]), "cost": D(v["cost"]),
                "src": {(s["network"], s["node"]): D(s["ratio"]) for s in v["src"]},
            }
            for v in spec["converters"]
        }
        q = [1.0]
        for _, a in list(self.cons.values()) + list(self.prod.values()) + list(self.link.values()):
            q.append(np.abs(a).max())
        for s in self.stor.values():
            q += [s["capacity"].max(), s["flow_in"].max(), s["flow_out"].max(), s["init"]]
        for v in self.conv.values():
            q.append(v["max"].max())
            q += [(v["max"] / r).max() for r in v["src"].values()]
        self.scale = float(max(q))
        self.tol = 1e-6 * self.scale


class Plan:
    """A result read through the public output objects into dicts keyed like Dense."""

    def __init__(self, spec, result):
        from vlib.core import expect, reading

        n, h = spec["nb_scn"], spec["horizon"]
        self.cons, self.prod, self.stor, self.link, self.conv = {}, {}, {}, {}, {}

        def arr(x, what):
            a = np.asarray(x, dtype=float)
            expect(a.shape == (n, h), "%s: shape %s instead of %s", what, a.shape, (n, h))
            expect(np.isfinite(a).all(), "%s: not finite", what)
            return a

        with reading("result"):
            for net, onet in result.networks.items():
                for node, o in onet.nodes.items():
                    for c in o.consumptions:
                        self.cons[net, node, c.name] = arr(c.quantity, "consumption")
                    for p in o.productions:
                        self.prod[net, node, p.name] = arr(p.quantity, "production")
                    for s in o.storages:
                        self.stor[net, node, s.name] = {
                            k: arr(getattr(s, k), "storage " + k) for k in ("capacity", "flow_in", "flow_out")
                        }
                    for l in o.links:
                        self.link[net, node, l.dest] = arr(l.quantity, "link")
            for name, v in result.converters.items():
                self.conv[name] = {
                    "src": {tuple(k): arr(a, "converter source") for k, a in v.flow_src.items()},
                    "dest": arr(v.flow_dest, "converter dest"),
                }


def require_elements(d, plan):
    """Every element of the study has its figures in the result (else the properties would hold vacuously)."""
    from vlib.core import expect

    for kind in ("cons", "prod", "stor", "link", "conv"):
        a, b = set(getattr(d, kind)), set(getattr(plan, kind))
        expect(a == b, "result elements (%s) differ from the study: %s", kind, sorted(map(str, a ^ b))[:4])
    for name, v in d.conv.items():
        expect(set(v["src"]) == set(plan.conv[name]["src"]), "converter %s sources differ", name)


def plan_cost(d, plan):
    """Documented objective per (scenario, step)."""
    cost = np.zeros((d.n, d.h))
    for k, (c, q) in d.cons.items():
        cost += (q - plan.cons[k]) * c
    for k, (c, _) in d.prod.items():
        cost += plan.prod[k] * c
    for k, s in d.stor.items():
        cost += plan.stor[k]["capacity"] * s["cost"]
    for k, (c, _) in d.link.items():
        cost += plan.link[k] * c
    for k, v in d.conv.items():
        cost += plan.conv[k]["dest"] * v["cost"]
    return cost


def cost_scale(d):
    """Magnitude of money at stake: sum of |cost| * limit."""
    m = 1.0
    for (c, q) in list(d.cons.values()) + list(d.prod.values()) + list(d.link.values()):
        m += float((np.abs(c) * q).sum())
    for s in d.stor.values():
        m += float((np.abs(s["cost"]) * s["capacity"]).sum())
    for v in d.conv.values():
        m += float((np.abs(v["cost"]) * v["max"]).sum())
    return m


def node_residual(d, plan):
    """energy in - energy out, per node: dict -> (n, h)"""
    res = {k: np.zeros((d.n, d.h)) for k in d.nodes}
    for (net, node, _), a in plan.prod.items():
        res[net, node] += a
    for (net, node, _), a in plan.cons.items():
        res[net, node] -= a
    for (net, node, _), s in plan.stor.items():
        res[net, node] += s["flow_out"] - s["flow_in"]
    for (net, src, dest), a in plan.link.items():
        res[net, src] -= a
        res[net, dest] += a
    for name, v in plan.conv.items():
        res[d.conv[name]["dest"]] += v["dest"]
        for k, a in v["src"].items():
            res[k] -= a
    return res


def reference(d, scn, solver_name="CLP"):
    """Minimal cost of one scenario by an independent formulation. Returns (feasible, cost)."""
    from ortools.linear_solver.pywraplp import Solver

    s = Solver.CreateSolver(solver_name)
    obj = s.Objective()
    obj.SetMinimization()
    const = 0.0
    s.NumVar(0.0, 1.0, "")  # CLP crashes on a model without variables
    bal = {}
    for k in d.nodes:
        for t in range(d.h):
            bal[k, t] = s.Constraint(0.0, 0.0)
    for (net, node, _), (c, q) in d.cons.items():
        for t in range(d.h):  # variable: given
            v = s.NumVar(0.0, float(q[scn, t]), "")
            obj.SetCoefficient(v, -float(c[scn, t]))
            const += float(c[scn, t] * q[scn, t])
            bal[(net, node), t].SetCoefficient(v, -1.0)
    for (net, node, _), (c, q) in d.prod.items():
        for t in range(d.h):
            v = s.NumVar(0.0, float(q[scn, t]), "")
            obj.SetCoefficient(v, float(c[scn, t]))
            bal[(net, node), t].SetCoefficient(v, 1.0)
    for (net, src, dest), (c, q) in d.link.items():
        for t in range(d.h):
            v = s.NumVar(0.0, float(q[scn, t]), "")
            obj.SetCoefficient(v, float(c[scn, t]))
            if src != dest:
                bal[(net, src), t].SetCoefficient(v, -1.0)
                bal[(net, dest), t].SetCoefficient(v, 1.0)
    for (net, node, _), st in d.stor.items():
        prev = None
        for t in range(d.h):
            fi = s.NumVar(0.0, float(st["flow_in"][scn, t]), "")
            fo = s.NumVar(0.0, float(st["flow_out"][scn, t]), "")
            lv = s.NumVar(0.0, float(st["capacity"][scn, t]), "")
            obj.SetCoefficient(lv, float(st["cost"][scn, t]))
            bal[(net, node), t].SetCoefficient(fi, -1.0)
            bal[(net, node), t].SetCoefficient(fo, 1.0)
            rhs = st["init"] if prev is None else 0.0
            c = s.Constraint(rhs, rhs)
            c.SetCoefficient(lv, 1.0)
            c.SetCoefficient(fi, -float(st["eff"][scn, t]))
            c.SetCoefficient(fo, 1.0)
            if prev is not None:
                c.SetCoefficient(prev, -1.0)
            prev = lv
    for v in d.conv.values():
        for t in range(d.h):
            # one activity variable: output; inputs are output / ratio
            y = s.NumVar(0.0, float(v["max"][scn, t]), "")
            obj.SetCoefficient(y, float(v["cost"][scn, t]))
            coef = {v["dest"]: 1.0}
            for k, r in v["src"].items():
                coef[k] = coef.get(k, 0.0) - 1.0 / float(r[scn, t])
            for k, a in coef.items():
                bal[k, t].SetCoefficient(y, a)
    obj.SetOffset(const)
    status = s.Solve()
    if status == Solver.OPTIMAL:
        return True, obj.Value()
    if status == Solver.INFEASIBLE:
        return False, None
    raise RuntimeError("reference solver status %s" % status)


def read_study(study):
    """Content of a hadar Study, read through its public objects: plain nested dict with dense lists."""
    from vlib.core import expect, reading

    with reading("study"):
        n, h = study.nb_scn, study.horizon

        def num(v, what):
            if isinstance(v, (int, float)):  # a converter without destination has plain zeros
                return [[float(v)] * h for _ in range(n)]
            a = [[float(v[i, t]) for t in range(h)] for i in range(n)]
            f = np.asarray(v.flatten(), dtype=float)
            expect(f.shape == (n * h,), "%s: flat view has %s numbers instead of %d", what, f.shape, n * h)
            expect(f.tolist() == [x for r in a for x in r], "%s: flat view differs from item view", what)
            return a

        out = {"horizon": h, "nb_scn": n, "networks": {}, "converters": {}}
        for net, o in study.networks.items():
            nodes = {}
            for name, nd in o.nodes.items():
                nodes[name] = {
                    "consumptions": [{"name": c.name, "cost": num(c.cost, "cost"), "quantity": num(c.quantity, "quantity")} for c in nd.consumptions],
                    "productions": [{"name": c.name, "cost": num(c.cost, "cost"), "quantity": num(c.quantity, "quantity")} for c in nd.productions],
                    "storages": [
                        {"name": s.name, "init_capacity": float(s.init_capacity),
                         **{k: num(getattr(s, k), k) for k in ("capacity", "flow_in", "flow_out", "cost", "eff")}}
                        for s in nd.storages
                    ],
                    "links": [{"dest": l.dest, "cost": num(l.cost, "cost"), "quantity": num(l.quantity, "quantity")} for l in nd.links],
                }
            out["networks"][net] = nodes
        for name, v in study.converters.items():
            expect(v.name == name, "converter %s is filed under %s", v.name, name)
            out["converters"][name] = {
                "dest": [v.dest_network, v.dest_node], "cost": num(v.cost, "cost"), "max": num(v.max, "max"),
                "src": [[a, b, num(r, "ratio")] for (a, b), r in v.src_ratios.items()],
            }
        return out


def spec_content(spec):
    """What read_study must give for a study built from spec."""
    n, h = spec["nb_scn"], spec["horizon"]

    def D(v):
        return dense(v, n, h).tolist()

    out = {"horizon": h, "nb_scn": n, "networks": {}, "converters": {}}
    for net in spec["networks"]:
        nodes = {}
        for nd in net["nodes"]:
            nodes[nd["name"]] = {
                "consumptions": [{"name": c["name"], "cost": D(c["cost"]), "quantity": D(c["quantity"])} for c in nd["consumptions"]],
                "productions": [{"name": c["name"], "cost": D(c["cost"]), "quantity": D(c["quantity"])} for c in nd["productions"]],
                "storages": [
                    {"name": s["name"], "init_capacity": float(s["init_capacity"]),
                     **{k: D(s[k]) for k in ("capacity", "flow_in", "flow_out", "cost", "eff")}} for s in nd["storages"]
                ],
                "links": [{"dest": l["dest"], "cost": D(l["cost"]), "quantity": D(l["quantity"])} for l in net["links"] if l["src"] == nd["name"]],
            }
        out["networks"][net["name"]] = nodes
    for v in spec["converters"]:
        out["converters"][v["name"]] = {
            "dest": [v["to_network"], v["to_node"]], "cost": D(v["cost"]), "max": D(v["max"]),
            "src": [[s["network"], s["node"], D(s["ratio"])] for s in v["src"]],
        }
    return out


def same_content(got, want, what, ordered=True):
    """Raise Violation at the first difference."""
    from vlib.core import Violation

    def go(a, b, path):
        if isinstance(b, dict):
            ka, kb = list(a) if isinstance(a, dict) else a, list(b)
            if ka != kb if ordered else set(ka) != set(kb):
                raise Violation("%s: at %s found %s, expected %s" % (what, path, ka, kb))
            for k in b:
                go(a[k], b[k], path + "/" + str(k))
        elif isinstance(b, list):
            if len(a) != len(b):
                raise Violation("%s: at %s found %d entries, expected %d" % (what, path, len(a), len(b)))
            for i, (x, y) in enumerate(zip(a, b)):
                go(x, y, path + "/" + str(i))
        elif a != b:
            raise Violation("%s: at %s found %r, expected %r" % (what, path, a, b))

    go(got, want, "")
