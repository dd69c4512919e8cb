"""Histories of fluent-API calls, valid and invalid, on any selector obtained so far, against a plain model."""
import copy

import hadar as hd
from hypothesis import strategies as st
from vlib.core import Sub, expect, reading, rejects, sut
from vlib.gen import value, wchoice
from vlib.model import dense, raw, read_study, same_content

ASSUMPTIONS = ["calls name networks through selectors (a selector only exists for an existing network or node)"]

NODES = ["a", "b", "c", "ab", "A", "default"]
NETS = ["default", "gas", "a", "elec"]
ELEMS = ["x", "y", "load", "xx"]
# usual names; then names that give the same text when put side by side (a + b.c and a.b + c), and look-alikes
POOLS = [(NODES, NETS, ELEMS)] + [
    (["a", z.join("ab"), z.join("bc"), "c"], ["default", "gas", z.join(["gas", "a"])], ["c", z.join("bc"), z.join("cx"), "x"]) for z in ("", "-", " ")
] + [(["a", "a ", " a", "A", "1", "01"], ["default", "Default", "default ", "gas"], ["x", "X", "x ", "1", "1.0"])]


# documented default values, and documented order of the arguments
OPTIONAL = {"network": {"name": "default"}, "storage": {"cost": 0, "init_capacity": 0, "eff": 0.99}, "converter": {"cost": 0}, "to_converter": {"ratio": 1}}
ORDER = {"network": ["name"], "node": ["name"], "consumption": ["name", "cost", "quantity"], "production": ["name", "cost", "quantity"],
         "storage": ["name", "capacity", "flow_in", "flow_out", "cost", "init_capacity", "eff"], "link": ["src", "dest", "cost", "quantity"],
         "converter": ["name", "to_network", "to_node", "max", "cost"], "to_converter": ["name", "ratio"]}


def op_values(draw, n, h, lo, hi, bad):
    """A value; if bad, one entry of it is out of [lo, hi]"""
    v = value(draw, n, h, lo, hi)
    if bad:
        wrong = draw(st.sampled_from([-1, -0.01, -500, -0.004, -1e-6, -1e-9])) if not (hi == 1 and draw(st.booleans())) else draw(st.sampled_from([1.01, 2, 40, 1.0004, 1.000001]))
        if v["f"] == "scalar":
            v["v"] = wrong
        elif v["f"] in ("row", "col"):
            v["v"][draw(st.integers(0, len(v["v"]) - 1))] = wrong
        else:
            r = v["v"][draw(st.integers(0, n - 1))]
            r[draw(st.integers(0, h - 1))] = wrong
    return v


@st.composite
def histories(draw):
    n, h = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    pool = wchoice(draw, (5, 0), (1, 1), (1, 2), (1, 3), (1, 4))
    NODES, NETS, ELEMS = POOLS[pool]
    ops = []
    kinds = ["network", "node", "node", "consumption", "production", "storage", "link", "link", "converter", "to_converter", "to_converter"]
    for _ in range(draw(st.integers(3, 22))):
        k = draw(st.sampled_from(kinds))
        op = {"op": k, "sel": draw(st.integers(0, 30))}
        bad = draw(st.integers(0, 9)) == 9
        V = lambda lo, hi, b=False: op_values(draw, n, h, lo, hi, b)
        if k == "network":
            op["name"] = draw(st.sampled_from(NETS))
        elif k == "node":
            op["name"] = draw(st.sampled_from(NODES))
        elif k in ("consumption", "production"):
            op.update(name=draw(st.sampled_from(ELEMS)), cost=V(-5, 50), quantity=V(0, 20, bad))
        elif k == "storage":
            which = draw(st.sampled_from(["capacity", "flow_in", "flow_out", "eff", "init"])) if bad else None
            op.update(name=draw(st.sampled_from(ELEMS)), cost=V(-1, 5), init_capacity=-3 if which == "init" else draw(st.integers(0, 9)),
                      capacity=V(0, 20, which == "capacity"), flow_in=V(0, 20, which == "flow_in"), flow_out=V(0, 20, which == "flow_out"),
                      eff=V(0, 1, which == "eff"))
        elif k == "link":
            op.update(src=draw(st.sampled_from(NODES)), dest=draw(st.sampled_from(NODES)), cost=V(-1, 5), quantity=V(0, 20, bad))
        elif k == "converter":
            op.update(name=draw(st.sampled_from(ELEMS)), to_network=draw(st.sampled_from(NETS)), to_node=draw(st.sampled_from(NODES)),
                      max=V(0, 20), cost=V(-1, 5))
        elif k == "to_converter":
            op.update(name=draw(st.sampled_from(ELEMS)), ratio=V(0.1, 3))
        if bad and k in ("converter", "to_converter", "consumption", "link") and draw(st.booleans()):
            # a value of a wrong shape instead
            field = {"converter": draw(st.sampled_from(["max", "cost"])), "to_converter": "ratio"}.get(k, draw(st.sampled_from(["cost", "quantity"])))
            op[field] = {"f": "row", "c": "np", "v": [1.0] * (h + 1 + n), "wrong": True}
        if draw(st.integers(0, 2)) == 2:  # rely on default values
            left = [f for f in OPTIONAL.get(k, {}) if f in op and draw(st.booleans())]
            for f in left:
                op[f] = {"f": "scalar", "v": OPTIONAL[k][f]} if f not in ("init_capacity", "name") else OPTIONAL[k][f]
            op["omit"] = left
        if draw(st.integers(0, 5)) == 5:
            op["pos"] = True
        if k not in ("network", "node") and draw(st.integers(0, 4)) == 4:
            op["again"] = draw(st.integers(0, 9))  # same selector and identity as an earlier call of that kind
        if k == "link" and draw(st.integers(0, 5)) == 5:
            op["direct"] = True
        ops.append(op)
    return {"n": n, "h": h, "pool": pool, "nets": draw(st.integers(0, 2)), "ops": ops}


class Model:
    """What the study must contain."""

    def __init__(self, n, h):
        self.n, self.h = n, h
        self.s = {"horizon": h, "nb_scn": n, "networks": {}, "converters": {}}

    def D(self, v):
        return dense(v, self.n, self.h).tolist()

    def bad(self, v, lo=None, hi=None):
        if v.get("wrong"):
            return True
        a = dense(v, self.n, self.h)
        return (lo is not None and (a < lo).any()) or (hi is not None and (a > hi).any())

    def zeros(self):
        return [[0.0] * self.h for _ in range(self.n)]

    def apply(self, level, op):
        """level: None | [net] | [net, node]. Returns (accepted, level of the returned selector)."""
        k = op["op"]
        nets = self.s["networks"]
        if k == "network":
            nets.setdefault(op["name"], {})
            return True, [op["name"]]
        if k == "node":
            nets[level[0]].setdefault(op["name"], {"consumptions": [], "productions": [], "storages": [], "links": []})
            return True, [level[0], op["name"]]
        if k in ("consumption", "production"):
            lst = nets[level[0]][level[1]][k + "s"]
            if op["name"] in [e["name"] for e in lst] or self.bad(op["cost"]) or self.bad(op["quantity"], 0):
                return False, None
            lst.append({"name": op["name"], "cost": self.D(op["cost"]), "quantity": self.D(op["quantity"])})
            return True, level
        if k == "storage":
            lst = nets[level[0]][level[1]]["storages"]
            if (op["name"] in [e["name"] for e in lst] or any(self.bad(op[f], 0) for f in ("capacity", "flow_in", "flow_out"))
                    or self.bad(op["eff"], 0, 1) or op["init_capacity"] < 0):
                return False, None
            lst.append({"name": op["name"], "init_capacity": float(op["init_capacity"]),
                        **{f: self.D(op[f]) for f in ("capacity", "flow_in", "flow_out", "cost", "eff")}})
            return True, level
        if k == "link":
            nodes = nets[level[0]]
            if (op["src"] not in nodes or op["dest"] not in nodes or op["dest"] in [l["dest"] for l in nodes[op["src"]]["links"]]
                    or self.bad(op["cost"]) or self.bad(op["quantity"], 0)):
                return False, None
            nodes[op["src"]]["links"].append({"dest": op["dest"], "cost": self.D(op["cost"]), "quantity": self.D(op["quantity"])})
            return True, level[:1]
        cv = self.s["converters"]
        if k == "converter":
            if (op["name"] in cv and cv[op["name"]]["dest"][0]) or op["to_network"] not in nets or op["to_node"] not in nets[op["to_network"]] \
                    or self.bad(op["max"]) or self.bad(op["cost"]):
                return False, None
            v = cv.setdefault(op["name"], {"dest": ["", ""], "cost": self.zeros(), "max": self.zeros(), "src": []})
            v.update(dest=[op["to_network"], op["to_node"]], cost=self.D(op["cost"]), max=self.D(op["max"]))
            return True, level[:1]
        if k == "to_converter":
            if (op["name"] in cv and level in [s[:2] for s in cv[op["name"]]["src"]]) or self.bad(op["ratio"]):
                return False, None
            v = cv.setdefault(op["name"], {"dest": ["", ""], "cost": self.zeros(), "max": self.zeros(), "src": []})
            v["src"].append(level + [self.D(op["ratio"])])
            return True, level


ALLOWED = {0: ["network"], 1: ["network", "node", "link", "converter"],
           2: ["network", "node", "link", "converter", "consumption", "production", "storage", "to_converter"]}


def decide(case, rec):
    study = sut("Study", hd.Study, horizon=case["h"]) if case["n"] == 1 and len(case["ops"]) % 2 else sut("Study", hd.Study, horizon=case["h"], nb_scn=case["n"])
    m = Model(case["n"], case["h"])
    sels = [(study, None)]
    # a few nodes to start from, each selector kept for later
    NODES, NETS, _ = POOLS[case.get("pool", 0)]
    for i in range(case["nets"]):
        sel = sut("network", study.network, NETS[i])
        m.apply(None, {"op": "network", "name": NETS[i]})
        sels.append((sel, [NETS[i]]))
        for nd in NODES[:4 if case.get("pool", 0) else 2]:
            sels.append((sut("node", sel.node, nd), m.apply([NETS[i]], {"op": "node", "name": nd})[1]))
    refused = accepted = stale = 0
    done = {}
    for op in case["ops"]:
        k = op["op"]
        fit = [s for s in sels if k in ALLOWED[len(s[1] or [])]]
        if not fit:
            continue
        pos = op["sel"] % len(fit)
        sel, level = fit[pos]
        if "again" in op and done.get(k):
            old, sel, level = done[k][op["again"] % len(done[k])]
            op = {**op, **{f: old[f] for f in ("name", "src", "dest") if f in old}}
        done.setdefault(k, []).append((op, sel, level))
        kw = {f: raw(op[f]) if isinstance(op[f], dict) else op[f] for f in ORDER[k] if f not in op.get("omit", [])}
        args = []
        if op.get("pos"):
            for f in ORDER[k]:
                if f not in kw:
                    break
                args.append(kw.pop(f))
        text = "%s on %s: %s" % (k, level, {f: v for f, v in op.items() if f not in ("op", "sel")})
        call = getattr(sel, k)
        if op.get("direct"):
            call = lambda *a, **b: (study.add_link(level[0], *a, **b), study.network(level[0]))[1]
        before = copy.deepcopy(m.s)
        ok, newlevel = m.apply(level, op)
        if ok:
            out = sut(text, call, *args, **kw)
            sels.append((out, newlevel))
            accepted += 1
            stale += pos != len(fit) - 1
        else:
            m.s = before
            rejects(text, call, *args, **kw)
            refused += 1
            rec.label("refused " + k)
        same_content(read_study(study), m.s, "after " + text)
    with reading("build"):
        built = sels[-1][0].build() if len(sels) > 1 else study
    same_content(read_study(built), m.s, "build()")
    rec.nontrivial = refused > 0 and accepted >= 3
    rec.label("older selector used" if stale else None)


SUBS = [Sub("history", histories, decide, 8000, rule="at least 3 calls accepted and one refused")]
