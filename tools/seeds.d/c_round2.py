A = "hadar/analyzer/result.py"
W = "hadar/workflow/"

seed("D01", "C01", [(O + "lp/optimizer.py", """            self.importations[
                (t, name_network, link.src, link.dest)
            ] = link.variable  # Import to dest
""", """            self.importations[(t, link.src, link.dest)] = (
                name_network,
                link.variable,
            )  # Import to dest
"""), (O + "lp/optimizer.py", """        for (t, net, src, dest), var in self.importations.items():
""", """        for (t, src, dest), (net, var) in self.importations.items():
""")], """
s = (hd.Study(horizon=1).network('gas').node('a').production(name='p', cost=1, quantity=10).node('b').consumption(name='l', cost=100, quantity=10)
     .link(src='a', dest='b', cost=1, quantity=10)
     .network('elec').node('a').production(name='p', cost=1, quantity=10).node('b').consumption(name='l', cost=100, quantity=10)
     .link(src='a', dest='b', cost=1, quantity=10).build())
r = hd.LPOptimizer().solve(s)
for n in ('gas', 'elec'):
    nn = r.networks[n].nodes
    assert abs(nn['b'].consumptions[0].quantity[0, 0] - nn['a'].links[0].quantity[0, 0]) < 1e-6
    assert nn['b'].consumptions[0].quantity[0, 0] > 9.9
""", "two networks with a link between nodes of the same names", "what the link of the first network carries never arrives")

seed("D02", "C02", [(O + "lp/mapper.py", """                0, float(v.max[scn, t]), "flow_dest %s %s" % (v.name, suffix)
""", """                0,
                float(max(v.max[scn, t], v.max[scn, max(t - 1, 0)])),
                "flow_dest %s %s" % (v.name, suffix),
"""), (O + "lp/mapper.py", """                    float(v.max[scn, t] / r),
""", """                    float(max(v.max[scn, t], v.max[scn, max(t - 1, 0)]) / r),
""")], """
s = (hd.Study(horizon=3).network('gas').node('b').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=0.5)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=30)
     .converter(name='v', to_network='elec', to_node='a', max=[20, 10, 15]).build())
r = hd.LPOptimizer().solve(s).converters['v']
assert (r.flow_dest <= np.array([20, 10, 15]) + 1e-6).all(), r
""", "a converter maximum that decreases in time while it is saturated", "converter output above the maximum of its step")

seed("D04", "C04", [(O + "lp/mapper.py", """        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
""", """        src_ratios = {k: round(v[scn, t], 3) for k, v in v.src_ratios.items()}
""")], """
s = (hd.Study(horizon=1).network('gas').node('b').production(name='p', cost=1, quantity=1000).to_converter(name='v', ratio=0.3336)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=100)
     .converter(name='v', to_network='elec', to_node='a', max=100).build())
r = hd.LPOptimizer().solve(s).converters['v']
assert np.allclose(r.flow_src[('gas', 'b')] * 0.3336, r.flow_dest, rtol=1e-6), r
""", "a conversion ratio with more than three decimals", "the ratio is rounded")

seed("D07", "C07", [(O + "domain/output.py", """        output.links = [OutputLink(dest=i.dest, quantity=fill) for i in input.links]
""", """        output.links = [
            OutputLink(dest=dest, quantity=fill)
            for dest in sorted(i.dest for i in input.links)
        ]
""")], """
s = (hd.Study(horizon=1).network().node('a').production(name='p', cost=1, quantity=10).node('c').consumption(name='l', cost=100, quantity=3).node('b')
     .link(src='a', dest='c', cost=1, quantity=10).link(src='a', dest='b', cost=1, quantity=10).build())
r = hd.LPOptimizer().solve(s)
assert [l.dest for l in r.networks['default'].nodes['a'].links] == ['c', 'b']
assert {l.dest: round(l.quantity[0, 0]) for l in r.networks['default'].nodes['a'].links} == {'c': 3, 'b': 0}
""", "a node whose links are not declared in alphabetical order", "flows are reported under the name of another link")

seed("D08", "C08", [(O + "domain/numeric.py", """            if value.shape == (self.nb_scn, 1):
                return ColumnNumericValue(
""", """            if value.ndim == 2 and 1 in value.shape and value.size == self.nb_scn:
                value = value.reshape(self.nb_scn, 1)
                return ColumnNumericValue(
""")], """
s = hd.Study(horizon=3, nb_scn=2)
try:
    s.network().node('a').consumption(name='l', cost=1, quantity=[[1, 2]])
except ValueError:
    pass
else:
    raise SystemExit('shape (1, nb_scn) accepted')
s = hd.Study(horizon=3, nb_scn=3).network().node('a')
""", "a single row with as many values as scenarios", "a wrong shape is read as one value per scenario")

seed("D09", "C09", [(O + "domain/input.py", """        if dest in [l.dest for l in self.networks[network].nodes[src].links]:
            raise ValueError("link destination must be unique on a node")

        quantity = self.factory.create(quantity)
""", """        links = self.networks[network].nodes[src].links
        if links and links[-1].dest == dest:
            raise ValueError("link destination must be unique on a node")

        quantity = self.factory.create(quantity)
""")], """
b = hd.Study(horizon=1).network().node('a').node('b').node('c').link(src='a', dest='b', cost=1, quantity=1).link(src='a', dest='c', cost=1, quantity=1)
try:
    b.link(src='a', dest='b', cost=1, quantity=5)
except ValueError:
    pass
else:
    raise SystemExit('duplicate link accepted')
""", "a duplicate link that does not follow the original immediately", "two links between the same nodes")

seed("D10", "C10", [(O + "domain/input.py", """            tuple(k.split("::")): factory.create(v)
""", """            tuple(k.strip().split("::")): factory.create(v)
""")], """
s = (hd.Study(horizon=1).network('gas').node('b ').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=0.5)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=10)
     .converter(name='v', to_network='elec', to_node='a', max=50).build())
t = hd.Study.from_json(s.to_json())
assert list(t.converters['v'].src_ratios) == [('gas', 'b ')], t.converters['v'].src_ratios
""", "a converter source node whose name ends with a blank", "the converter refers to a node that does not exist")

seed("D11", "C11", [(O + "utils.py", """        elif isinstance(value, np.ndarray):
            return value.tolist()
""", """        elif isinstance(value, np.ndarray):
            return np.where(np.abs(value) < 1e-3, 0.0, value).tolist()
""")], """
from hadar.optimizer.domain.output import *
from hadar.optimizer.domain.output import Result
r = Result(networks={'n': OutputNetwork(nodes={'a': OutputNode(consumptions=[OutputConsumption(name='c', quantity=np.array([[0.0005, 3.0]]))], productions=[], storages=[], links=[])})}, converters={})
q = Result.from_json(r.to_json()).networks['n'].nodes['a'].consumptions[0].quantity
assert q[0, 0] == 0.0005, q
""", "a figure below one thousandth", "small figures are lost when saved")

seed("D12", "C12", [(O + "remote/optimizer.py", """        check_code(resp.status_code)
        resp = resp.json()

        if resp["status"] == "QUEUED":
            bar.goto(resp["progress"])
""", """        check_code(resp.status_code)
        resp = resp.json()
        id = resp.get("job", id)

        if resp["status"] == "QUEUED":
            bar.goto(resp["progress"])
"""), (O + "remote/optimizer.py", """    if resp["status"] == "ERROR":
        raise ServerError(resp["message"])
""", """    if resp["status"] == "ERROR" and resp.get("message"):
        raise ServerError(resp["message"])
""")], """
from unittest import mock
import hadar.optimizer.remote.optimizer as ro
class R:
    def __init__(s, j): s.status_code = 200; s._j = j
    def json(s): return s._j
import requests
with mock.patch.object(requests, 'post', lambda **k: R({'job': 'x', 'status': 'QUEUED', 'progress': 1})), \
     mock.patch.object(requests, 'get', lambda **k: R({'status': 'ERROR', 'message': ''})), mock.patch.object(ro, 'sleep', lambda x: None):
    try:
        hd.RemoteOptimizer(url='h').solve(hd.Study(horizon=1))
    except ro.ServerError:
        pass
""", "a job failing with an empty message", "the failure is not reported as a server error")

seed("D13", "C13", [(A, """                index = tuple(range(start, index.stop, step))
""", """                index = tuple(range(start, index.stop, step)) or None
""")], """
s = hd.Study(horizon=6).network().node('a').consumption(name='l', cost=1, quantity=list(range(1, 7))).production(name='p', cost=0, quantity=10).build()
r = hd.LPOptimizer().solve(s)
df = hd.ResultAnalyzer(s, r).network().node('a').consumption('l').scn(0).time(slice(3, 3))
assert len(df) == 0, df
""", "an empty slice as filter", "an empty selection returns everything")

seed("D14", "C14", [(A, """            cost += (
                (link["used"] * link["cost"])
""", """            cost += (
                (link["used"] * link["cost"].abs())
""")], """
s = (hd.Study(horizon=1).network().node('a').production(name='p', cost=1, quantity=20).node('b').consumption(name='l', cost=100, quantity=5)
     .link(src='a', dest='b', cost=-5, quantity=20).build())
r = hd.LPOptimizer().solve(s)
c = hd.ResultAnalyzer(s, r).get_cost()
assert abs(c.sum() + 20) < 1e-6, c
""", "a link with a negative cost", "a subsidy is reported as an expense")

seed("D17", "C17", [(W + "pipeline.py", """        return self.rename[name] if name in self.rename else name
""", """        while name in self.rename:
            name = self.rename[name]
        return name
""")], """
df = pd.DataFrame({'a': [1, 2], 'b': [3, 4]})
out = hd.Rename(a='b', b='c')(df)
assert list(out[0].columns) == ['b', 'c'], out.columns
assert list(out[0]['b']) == [1, 2]
""", "a renaming that shifts names (a becomes b, b becomes c)", "renaming is applied repeatedly")

seed("D18", "C18", [(W + "pipeline.py", """        outputs = next.outputs + [
            e for e in self.outputs if e not in next.inputs and e not in next.outputs
        ]
        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
""", """        outputs = next.outputs
        outputs += [
            e for e in self.outputs if e not in next.inputs and e not in next.outputs
        ]
        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
""")], """
a, b = hd.Rename(x='p', y='q'), hd.Rename(p='r')
a + b
assert b.plug.outputs == ['r'], b.plug.outputs
""", "a stage linked after another that announces further columns", "linking changes the second stage")

seed("D19", "C19", [(W + "pipeline.py", """            loss_qt[begin : (begin + duration)] += self.loss
""", """            if not loss_qt[min(begin + duration, horizon - 1)]:
                loss_qt[begin : (begin + duration)] += self.loss
""")], """
np.random.seed(0)
tot = []
for i in range(200):
    df = pd.DataFrame({'quantity': np.zeros(300)})
    f = hd.Fault(loss=1, occur_freq=0.2, downtime_min=5, downtime_max=5, seed=i)
    tot.append(-f(df).values.sum() / 300)
assert abs(np.mean(tot) - 1.0) < 0.1, np.mean(tot)
""", "frequent faults, so that several overlap", "overlapping faults are dropped: fewer faults than asked")

seed("D21", "C21", [(W + "pipeline.py", """        timeline = Stage.standardize_column(timeline)

        self.assert_computable(timeline)

        for stage in self.stages:
            timeline = stage(timeline.copy())
""", """        timeline = Stage.standardize_column(timeline)

        self.assert_computable(timeline)

        for stage in self.stages:
            timeline = stage._process_timeline(timeline)
""")], """
df = pd.DataFrame(np.ones((2, 2)), columns=pd.MultiIndex.from_arrays([[0, 0], ['a', 'b']]))
p = hd.Rename(a='x') + hd.Clip(upper=5)
p(df)
assert list(df.columns.get_level_values(1)) == ['a', 'b'], df.columns
""", "a pipeline beginning with a stage writing in place, on a timeline with scenarios", "the caller's timeline is renamed")

V = "hadar/viewer/"
seed("D22", "C22", [(V + "abc.py", """            df["init_capacity"][0], (df["flow_in"] * df["eff"] - df["flow_out"]).values
        )
""", """            df["init_capacity"][0],
            df["flow_in"].values * df["eff"].values[0] - df["flow_out"].values,
        )
""")], """
s = (hd.Study(horizon=3).network().node('a').consumption(name='l', cost=1000, quantity=[0, 0, 10]).production(name='p', cost=1, quantity=[10, 10, 0])
     .storage(name='s', capacity=50, flow_in=10, flow_out=10, init_capacity=1, eff=[0.5, 0.9, 0.5]).build())
r = hd.LPOptimizer().solve(s)
fig = hd.HTMLPlotting(hd.ResultAnalyzer(s, r)).network().node('a').storage('s').candles(scn=0)
lvl = r.networks['default'].nodes['a'].storages[0].capacity[0]
assert np.allclose(fig.data[0].close, lvl), (fig.data[0].close, lvl)
""", "a storage whose efficiency varies in time", "candles draw levels with the first efficiency")

seed("D23", "C23", [(V + "abc.py", """            return [(i, data.loc[i][value_col].sort_index().values) for i in ids]
""", """            return [(i, data.loc[i][value_col].values) for i in ids]
""")], """
s = (hd.Study(horizon=4).network().node('a').consumption(name='l', cost=1000, quantity=[1, 2, 3, 4]).production(name='p', cost=[3, 1, 9, 2], quantity=10).build())
r = hd.LPOptimizer().solve(s)
fig = hd.HTMLPlotting(hd.ResultAnalyzer(s, r)).network().node('a').stack(scn=0)
assert np.allclose(fig.data[0].y, [1, 2, 3, 4]), fig.data[0].y
""", "a cost that varies in time", "steps of the stack are shuffled by cost")

seed("D24", "C23", [(V + "abc.py", """                if exchange >= 0:
                    lines[(src, dest)] = exchange
                else:
                    lines[(dest, src)] = -exchange
""", """                if exchange >= 0 or (dest, src) not in lines:
                    lines[(src, dest)] = abs(exchange)
""")], """
from hadar.optimizer.domain.output import *
s = (hd.Study(horizon=1).network().node('a').node('b').link(src='a', dest='b', cost=1, quantity=10).link(src='b', dest='a', cost=1, quantity=10).build())
def node(d, q): return OutputNode(consumptions=[], productions=[], storages=[], links=[OutputLink(dest=d, quantity=np.array([[q]]))])
from hadar.optimizer.domain.output import Result
r = Result(networks={'default': OutputNetwork(nodes={'a': node('b', 2.0), 'b': node('a', 7.0)})}, converters={})
class P(hd.HTMLPlotting): pass
p = P(hd.ResultAnalyzer(s, r), node_coord={'a': [0, 0], 'b': [1, 1]})
got = {}
p.plotting.map_exchange = lambda nodes, lines, limit, title, zoom: got.update(lines)
p.network().map(t=0, zoom=1)
assert got == {('b', 'a'): 5.0}, got
""", "links in both directions between two nodes, the second declared carrying more", "the map shows an arrow in the wrong direction")

seed("D25", "C22", [(V + "abc.py", """                .production(self.name)
                .scn(scn)
                .time()[self.kind]
                .values
            )
            rac = self.agg.get_rac(network=self.network)[scn, :]
""", """                .production(self.name)
                .scn(scn)
                .time()[self.kind]
                .values
            )
            rac = self.agg.get_rac()[scn, :]
""")], """
s = (hd.Study(horizon=2).network().node('a').consumption(name='l', cost=1000, quantity=[0, 10]).production(name='p', cost=1, quantity=5)
     .network('gas').node('a').consumption(name='l', cost=1000, quantity=[10, 0]).production(name='p', cost=1, quantity=[5, 5]).build())
r = hd.LPOptimizer().solve(s)
fig = hd.HTMLPlotting(hd.ResultAnalyzer(s, r)).network('gas').node('a').production('p').gaussian(scn=0)
assert list(fig.data[1].x) == [0] and list(fig.data[2].x) == [5], fig.data
""", "a study with several networks, drawing an element that is not in the default one", "points are told passed or failed by the capacity of another network")

seed("D28", "C05", [(O + "lp/optimizer.py", """        self.objective.SetCoefficient(conv.var_flow_dest, conv.cost)
""", """        self.objective.SetCoefficient(
            conv.var_flow_dest, conv.cost if len(conv.src_ratios) == 1 else 0
        )
""")], """
s = (hd.Study(horizon=1).network('gas').node('b').production(name='p', cost=1, quantity=1000).to_converter(name='v', ratio=0.5)
     .network('coal').node('b').production(name='p', cost=1, quantity=1000).to_converter(name='v', ratio=0.5)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=100).production(name='p', cost=30, quantity=100)
     .converter(name='v', to_network='elec', to_node='a', max=100, cost=50).build())
r = hd.LPOptimizer().solve(s)
assert r.converters['v'].flow_dest[0, 0] < 1e-6, r.converters['v'].flow_dest
""", "a converter with several sources and a cost, competing with a production", "converters mixing sources are free")

seed("D30", "C20", [(W + "shuffler.py", """        if self.data is None:
            self.data = self.compute()

        sampling = self.sampler(0, self.data.shape[0], nb)
        return self.data[sampling]
""", """        if self.data is None:
            self.data = self.compute()

        nb_data = self.data.shape[0]
        if nb <= nb_data:
            sampling = self.sampler(0, nb_data, nb)
        else:
            # Sample scenarios by chunk, at most as many as available each time
            chunks = [nb_data] * (nb // nb_data) + [nb % nb_data]
            sampling = np.concatenate(
                [self.sampler(0, nb_data, n) for n in chunks if n > 0]
            )
        return self.data[sampling]
""")], """
import hadar.workflow.shuffler as ws
calls = []
def sampler(low, high, size):
    calls.append(size)
    return np.arange(size)[::-1] % high
tl = ws.Timeline(np.arange(6).reshape(3, 2), sampler=sampler)
got = tl.sample(7)[:, 0].tolist()
assert got == [(i % 3) * 2 for i in range(6, -1, -1)], got
""", "more scenarios asked than the source has, with a sampler of one's own", "the sampler's picks are not followed")

seed("D31", "C19", [(W + "pipeline.py", """            low=self.downtime_min, high=self.downtime_max + 1, size=nb_faults
""", """            low=self.downtime_min, high=max(self.downtime_max, self.downtime_min + 1), size=nb_faults
""")], """
m = 0
for i in range(100):
    df = pd.DataFrame({'quantity': np.zeros(1000)})
    o = hd.Fault(loss=1, occur_freq=0.002, downtime_min=2, downtime_max=4, seed=i)(df).values[:, 0]
    if o.min() >= -1:
        run = 0
        for x in o:
            run = run + 1 if x < 0 else 0
            m = max(m, run if run <= 4 else 0)
assert m == 4, m
""", "faults of the longest duration", "the maximal downtime never occurs")

seed("D05", "C05", [(O + "lp/optimizer.py", """            self.objective.SetCoefficient(stor.var_capacity, stor.cost)
""", """            if stor.init_capacity < stor.capacity:
                self.objective.SetCoefficient(stor.var_capacity, stor.cost)
""")], """
s = (hd.Study(horizon=2).network().node('a').consumption(name='l', cost=1000, quantity=[5, 5]).production(name='p', cost=[1, 100], quantity=20)
     .storage(name='s', capacity=5, flow_in=10, flow_out=10, cost=150, init_capacity=5, eff=1).build())
r = hd.LPOptimizer().solve(s)
st = r.networks['default'].nodes['a'].storages[0]
assert abs(st.capacity[0, 0]) < 1e-6, st
""", "a storage with a cost that starts completely full", "full storages are kept for free: the plan is not the cheapest")

seed("D06", "C06", [(O + "lp/optimizer.py", """    pool = multiprocessing.Pool()
    serialized_out""", """    # Cheapest links first, it helps the solver
    for network in study.networks.values():
        for node in network.nodes.values():
            node.links.sort(key=lambda l: l.cost[0, 0])

    pool = multiprocessing.Pool()
    serialized_out""")], """
s = (hd.Study(horizon=1).network().node('a').node('b').node('c').link(src='a', dest='c', cost=5, quantity=1).link(src='a', dest='b', cost=1, quantity=1).build())
hd.LPOptimizer().solve(s)
assert [l.dest for l in s.networks['default'].nodes['a'].links] == ['c', 'b']
""", "a node whose links are not declared by increasing cost", "solving reorders the study")

seed("D15", "C15", [(A, """            self.production[self.production["network"] == network]
            .drop(["used", "cost"], axis=1)
            .pivot_table""", """            self.production[self.production["network"] == network]
            .drop(["used", "cost", "node"], axis=1)
            .drop_duplicates()
            .pivot_table""")], """
s = (hd.Study(horizon=1).network().node('a').production(name='p', cost=1, quantity=20).node('b').production(name='p', cost=1, quantity=20).consumption(name='l', cost=100, quantity=15).build())
r = hd.LPOptimizer().solve(s)
b = hd.ResultAnalyzer(s, r).get_rac()
assert abs(b[0, 0] - 25) < 1e-6, b
""", "two nodes with productions of the same name and availability", "one of them is missing in the remaining capacity")

seed("D20", "C20", [(W + "shuffler.py", """        res = self.pipeline(self.df)
""", """        res = self.pipeline(self.df).sort_index(axis=1)
""")], """
import hadar.workflow.shuffler as ws
df = pd.DataFrame({(3, 'q'): [3., 3.], (1, 'q'): [1., 1.], (2, 'q'): [2., 2.]})
tl = ws.TimelinePipeline(df, hd.Clip() + hd.ToShuffler('q'), sampler=lambda low, high, size: np.arange(size))
assert tl.sample(3)[:, 0].tolist() == [3, 1, 2], tl.sample(3)
""", "a pipeline source whose scenarios are not in increasing order", "the sampler's picks give other scenarios")

seed("D27", "C02", [(O + "lp/mapper.py", """            out_node.productions[i].quantity[scn, t] = vars.productions[i].variable
""", """            out_node.productions[i].quantity[scn, t] = round(vars.productions[i].variable, 2)
""")], """
s = (hd.Study(horizon=1).network().node('a').consumption(name='l', cost=1000, quantity=30).production(name='p', cost=1, quantity=10.126).build())
r = hd.LPOptimizer().solve(s)
assert r.networks['default'].nodes['a'].productions[0].quantity[0, 0] <= 10.126 + 1e-6
""", "availabilities with more than two decimals", "more is used than available")

seed("D29", "C14", [(A, """            conv = self.network(network).node(node).scn().time().from_converter()
            cost += (
                (conv["flow"] * conv["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
""", """            conv = self.dest_converter
            if node:
                conv = conv[conv["node"] == node]
            elif network:
                conv = conv[conv["network"] == network]
            cost += (
                (conv["flow"] * conv["cost"])
                .groupby([conv["scn"], conv["t"]])
                .sum()
""")], """
s = (hd.Study(horizon=1).network('gas').node('b').production(name='p', cost=0, quantity=100).to_converter(name='v').to_converter(name='w')
     .network('h2').node('a').consumption(name='l', cost=1000, quantity=10)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=10)
     .converter(name='v', to_network='elec', to_node='a', max=50, cost=3).converter(name='w', to_network='h2', to_node='a', max=50, cost=7).build())
r = hd.LPOptimizer().solve(s)
c = hd.ResultAnalyzer(s, r).get_cost(node='a', network='elec')
assert abs(c[0, 0] - 30) < 1e-6, c
""", "converters delivering to nodes of the same name in several networks", "converters of other networks are added to the cost of a node")

seed("D03", "C03", [(O + "lp/mapper.py", """                init_capacity=s.init_capacity,
""", """                init_capacity=min(s.init_capacity, s.capacity[scn, t] + s.flow_out[scn, t]),
""")], """
s = (hd.Study(horizon=2).network().node('a').consumption(name='l', cost=1000, quantity=50)
     .storage(name='s', capacity=10, flow_in=30, flow_out=5, init_capacity=40, eff=0.5).build())
try:
    r = hd.LPOptimizer().solve(s)
except Exception:
    sys.exit(0)
st = r.networks['default'].nodes['a'].storages[0]
assert abs(40 + 0.5 * st.flow_in[0, 0] - st.flow_out[0, 0] - st.capacity[0, 0]) < 1e-6, st
""", "a storage whose initial level can neither be kept nor released in the first step", "energy disappears from the storage instead of the study being refused")
