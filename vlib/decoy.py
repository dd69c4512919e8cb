"""Other objects made next to the ones under test: objects must not share state, so making them changes nothing."""
import hadar as hd

from vlib.core import sut

SPEC = {
    "version": "0", "horizon": 3, "nb_scn": 2,
    "networks": [{"name": n, "nodes": [
        {"name": "a", "consumptions": [{"name": "load", "cost": 7, "quantity": 3}], "productions": [{"name": "gas", "cost": 2, "quantity": 5}], "storages": []},
        {"name": "other", "consumptions": [{"name": "load", "cost": 9, "quantity": 4}], "productions": [], "storages": []},
    ]} for n in ("default", "spare")],
}


def study():
    s = hd.Study(horizon=SPEC["horizon"], nb_scn=SPEC["nb_scn"])
    for net in SPEC["networks"]:
        s = s.network(net["name"])
        for nd in net["nodes"]:
            s = s.node(nd["name"])
            for c in nd["consumptions"]:
                s = s.consumption(**c)
            for p in nd["productions"]:
                s = s.production(**p)
        s = s.link(src="a", dest="other", cost=1, quantity=2)
    return s.build()


def result():
    import numpy as np
    from hadar.optimizer.domain.output import OutputConsumption, OutputLink, OutputNetwork, OutputNode, OutputProduction, Result

    full = lambda v: np.full((SPEC["nb_scn"], SPEC["horizon"]), float(v))
    return Result(converters={}, networks={net["name"]: OutputNetwork(nodes={nd["name"]: OutputNode(
        consumptions=[OutputConsumption(name=c["name"], quantity=full(1.5)) for c in nd["consumptions"]],
        productions=[OutputProduction(name=p["name"], quantity=full(2.5)) for p in nd["productions"]],
        storages=[], links=[OutputLink(dest="other", quantity=full(0.5))] if nd["name"] == "a" else [],
    ) for nd in net["nodes"]}) for net in SPEC["networks"]})


def analyzer():
    return sut("analyzer of another study", lambda: hd.ResultAnalyzer(study(), result()))


def viewer():
    return sut("viewer of another study", lambda: hd.HTMLPlotting(analyzer(), unit_symbol="decoy", time_start="1999-01-01", time_end="1999-02-01", node_coord={"a": [170.0, -80.0], "other": [171.0, -81.0]}))
