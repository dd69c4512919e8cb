"""Synthetic results (no solver): mostly distinct figures, so that any misplacement shows, with some zeros and repeats."""
import random

import numpy as np

from vlib.model import Dense


class Figures:
    """Expected figures of a synthetic result for a spec, keyed like Dense/Plan."""

    def __init__(self, spec, seed, lo=0.0, hi=1000.0):
        r = random.Random(seed)
        n, h = spec["nb_scn"], spec["horizon"]

        # mostly large distinct figures; also figures below one, tiny, or small integers with repeats
        size = random.Random("size %s" % seed).choice([hi, hi, hi, hi / 1000, hi / 1e5, 4])

        def one():
            return float(r.randint(0, 4)) if size == 4 else round(r.uniform(lo * size / hi, size), 4 if size > 0.1 else 7)

        def arr():
            """Mostly all distinct; sometimes with zeros, constant, or nothing but zeros (unused elements)."""
            m = r.random()
            if m < 0.6:
                f = one
            elif m < 0.8:
                f = lambda: 0.0 if r.random() < 0.5 else one()
            else:
                c = 0.0 if m < 0.9 else one()
                f = lambda: c
            return np.array([[f() for _ in range(h)] for _ in range(n)])

        d = Dense(spec)
        self.cons = {k: arr() for k in d.cons}
        self.prod = {k: arr() for k in d.prod}
        self.stor = {k: {f: arr() for f in ("capacity", "flow_in", "flow_out")} for k in d.stor}
        self.link = {k: arr() for k in d.link}
        self.conv = {k: {"src": {s: arr() for s in v["src"]}, "dest": arr()} for k, v in d.conv.items()}

    def result(self, spec):
        """As hadar output objects, in the study's order."""
        from hadar.optimizer.domain.output import (
            OutputConsumption, OutputConverter, OutputLink, OutputNetwork, OutputNode, OutputProduction, OutputStorage,
            Result,
        )

        nets = {}
        for net in spec["networks"]:
            nodes = {}
            for nd in net["nodes"]:
                k = (net["name"], nd["name"])
                nodes[nd["name"]] = OutputNode(
                    consumptions=[OutputConsumption(quantity=self.cons[k + (c["name"],)].copy(), name=c["name"]) for c in nd["consumptions"]],
                    productions=[OutputProduction(quantity=self.prod[k + (p["name"],)].copy(), name=p["name"]) for p in nd["productions"]],
                    storages=[OutputStorage(name=s["name"], **{f: a.copy() for f, a in self.stor[k + (s["name"],)].items()}) for s in nd["storages"]],
                    links=[OutputLink(dest=l["dest"], quantity=self.link[net["name"], nd["name"], l["dest"]].copy()) for l in net["links"] if l["src"] == nd["name"]],
                )
            nets[net["name"]] = OutputNetwork(nodes=nodes)
        conv = {
            v["name"]: OutputConverter(
                name=v["name"],
                flow_src={s: a.copy() for s, a in self.conv[v["name"]]["src"].items()},
                flow_dest=self.conv[v["name"]]["dest"].copy(),
            )
            for v in spec["converters"]
        }
        return Result(networks=nets, converters=conv)


KINDS = ("consumption", "production", "storage", "link", "to_converter", "from_converter")


def rows(d, p, kind):
    """Flat expected data: list of ({network, node, name|dest, scn, t}, {column: value})."""
    out = []

    def add(net, node, idcol, ident, cols):
        for i in range(d.n):
            for t in range(d.h):
                out.append(({"network": net, "node": node, idcol: ident, "scn": i, "t": t},
                            {c: float(a[i, t]) for c, a in cols.items()}))

    if kind == "consumption":
        for (net, node, name), (c, q) in d.cons.items():
            add(net, node, "name", name, {"cost": c, "asked": q, "given": p.cons[net, node, name]})
    elif kind == "production":
        for (net, node, name), (c, q) in d.prod.items():
            add(net, node, "name", name, {"cost": c, "avail": q, "used": p.prod[net, node, name]})
    elif kind == "storage":
        for (net, node, name), s in d.stor.items():
            q = p.stor[net, node, name]
            add(net, node, "name", name, {
                "max_capacity": s["capacity"], "capacity": q["capacity"], "max_flow_in": s["flow_in"], "flow_in": q["flow_in"],
                "max_flow_out": s["flow_out"], "flow_out": q["flow_out"], "cost": s["cost"], "eff": s["eff"],
                "init_capacity": np.full((d.n, d.h), s["init"]),
            })
    elif kind == "link":
        for (net, src, dest), (c, q) in d.link.items():
            add(net, src, "dest", dest, {"cost": c, "avail": q, "used": p.link[net, src, dest]})
    elif kind == "to_converter":
        for name, v in d.conv.items():
            for (net, node), r in v["src"].items():
                add(net, node, "name", name, {"ratio": r, "max": v["max"] / r, "flow": p.conv[name]["src"][net, node]})
    elif kind == "from_converter":
        for name, v in d.conv.items():
            add(v["dest"][0], v["dest"][1], "name", name, {"cost": v["cost"], "max": v["max"], "flow": p.conv[name]["dest"]})
    return out
