seed("F02", "C09", [(O + "domain/input.py", """        if dest in [l.dest for l in self.networks[network].nodes[src].links]:
            raise ValueError("link destination must be unique on a node")
""", """        links = {
            "%s-%s" % (n, l.dest)
            for n, node in self.networks[network].nodes.items()
            for l in node.links
        }
        if "%s-%s" % (src, dest) in links:
            raise ValueError("link destination must be unique on a node")
""")], """
n = hd.Study(horizon=1).network().node('fr').node('fr-1').node('1-be').node('be')
n.link(src='fr', dest='1-be', cost=1, quantity=1)
s = n.link(src='fr-1', dest='be', cost=1, quantity=1).build()
assert [l.dest for l in s.networks['default'].nodes['fr-1'].links] == ['be']
""", "links whose ends give the same text once put together", "a valid link is refused")

seed("F03", "C16", [(A, """        cost = np.zeros((self.nb_scn, self.horizon))
        c, p, s, l, _, v = self.get_elements_inside(node, network)
        network = "default" if node and network is None else network
""", """        cost = np.zeros((self.nb_scn, self.horizon))
        c, p, s, l, _, v = self.get_elements_inside(node, network)
        network = "default" if node and network is None else network
        key = "".join(e for e in (network, node) if e)
        if not hasattr(self, "_costs"):
            self._costs = {}
        if key in self._costs:
            return self._costs[key].copy()
"""), (A, """                (conv["flow"] * conv["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )

        return cost
""", """                (conv["flow"] * conv["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )

        self._costs[key] = cost.copy()
        return cost
""")], """
s = (hd.Study(horizon=1).network('gas').node('a').consumption(name='l', cost=10, quantity=3)
     .network('gasa').node('b').consumption(name='l', cost=10, quantity=5).build())
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert agg.get_cost(network='gasa')[0, 0] == 50
assert agg.get_cost(node='a', network='gas')[0, 0] == 30
""", "a network and a node whose names put together make the name of another network, both asked", "the cost of another part of the study is returned")

seed("F04", "C04", [(O + "lp/mapper.py", """        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
""", """        if t == 0 or not hasattr(self, "_ratios"):
            self._ratios = {}
        # usage of ratio is the same every day
        src_ratios = self._ratios.setdefault(
            (name, scn, t % 24), {k: v[scn, t] for k, v in v.src_ratios.items()}
        )
""")], """
h = 30
q = np.linspace(0.5, 2, h)
s = (hd.Study(horizon=h).network('gas').node('a').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=q)
     .network('elec').node('b').consumption(name='l', cost=1000, quantity=10)
     .converter(name='v', to_network='elec', to_node='b', max=50).build())
r = hd.LPOptimizer().solve(s)
v = r.converters['v']
assert np.allclose(v.flow_src[('gas', 'a')][0] * q, v.flow_dest[0])
""", "a ratio that varies over more than one day", "conversion ratio of the first day is applied")

seed("F05", "C22", [("hadar/viewer/html.py", """        scenarios = df.index.get_level_values("scn").unique()
        alpha = max(0.01, 1 / scenarios.size)
        color = "rgba(0, 0, 0, %.2f)" % alpha

        fig = go.Figure()
        for scn in scenarios:
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=df.loc[scn],
                    mode="lines",
                    hoverinfo="name",
                    name="scn %0d" % scn,
""", """        scenarios = df.index.get_level_values("scn").unique()
        alpha = max(0.01, 1 / scenarios.size)
        color = "rgba(0, 0, 0, %.2f)" % alpha
        names = sorted("scn %0d" % scn for scn in scenarios)

        fig = go.Figure()
        for name, scn in zip(names, scenarios):
            fig.add_trace(
                go.Scatter(
                    x=self.time_index,
                    y=df.loc[scn],
                    mode="lines",
                    hoverinfo="name",
                    name=name,
""")], """
n = 12
s = hd.Study(horizon=2, nb_scn=n).network().node('a').consumption(name='l', cost=1, quantity=np.arange(2 * n).reshape(n, 2)).build()
fig = hd.HTMLPlotting(hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))).network().node('a').consumption('l', 'asked').timeline()
for tr in fig.data:
    i = int(tr.name.split()[1])
    assert list(tr.y) == [2 * i, 2 * i + 1], (tr.name, tr.y)
""", "more than ten scenarios", "curves carry the name of another scenario")

seed("F06", "C17", [(W + "pipeline.py", """        return pd.concat(output, axis=1)
""", """        return pd.concat(output, axis=1)[sorted(output, key=str)]
"""), (W + "pipeline.py", """        serials = np.array([scenarios.index(scn) for scn, _ in timeline.columns])
""", """        serials = np.repeat(
            np.arange(len(scenarios)), len(timeline.columns) // len(scenarios)
        )
        if list(timeline.columns.get_level_values(0)) != list(
            np.repeat(scenarios, len(timeline.columns) // len(scenarios))
        ):
            serials = np.array([scenarios.index(scn) for scn, _ in timeline.columns])
        else:
            scenarios = sorted(scenarios)
""")], """
df = pd.DataFrame({(i, 'quantity'): [float(i)] for i in range(11)})
p = hd.Fault(loss=1, occur_freq=0, downtime_min=1, downtime_max=2) + hd.RepeatScenario(2)
out = p(df)
for i in range(22):
    assert out[i, 'quantity'].tolist() == [i % 11], (i, out[i, 'quantity'].tolist())
""", "more than ten scenarios going through a stage by scenario, then repeated", "repeated scenarios are numbered in another order")

seed("F07", "C14", [(A, """        if s:
            stor = self.network(network).node(node).scn().time().storage()
            cost += (
                (stor["capacity"] * stor["cost"])
""", """        if s:
            stor = self.network(network).node(node).scn().time().storage()
            cost += (
                (stor["capacity"].clip(upper=stor["max_capacity"]).round(3) * stor["cost"])
""")], """
s = (hd.Study(horizon=1).network().node('a').storage(name='s', capacity=0.01, flow_in=0, flow_out=0, init_capacity=0.0004, cost=1000, eff=1).build())
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert abs(agg.get_cost()[0, 0] - 0.4) < 1e-6, agg.get_cost()
""", "a stored level below one thousandth", "the cost of small stored levels is forgotten")

seed("F08", "C20", [(W + "shuffler.py", """    tl, nb, name = params
    return name, tl.sample(nb)
""", """    tl, nb, name = params
    return str(name).strip(), tl.sample(nb)
""")], """
sh = hd.Shuffler().add_data(name='wind ', data=np.array([[1, 2]])).add_data(name='wind', data=np.array([[3, 4]]))
r = sh.shuffle(1)
assert set(r) == {'wind ', 'wind'} and r['wind '].tolist() == [[1, 2]], r
""", "a source whose name ends with a blank", "a source is lost or replaced by another one")

seed("F09", "C05", [(O + "lp/optimizer.py", """        for stor in stors:
            self.objective.SetCoefficient(stor.var_capacity, stor.cost)
""", """        for stor in stors:
            if stor.capacity <= 0 or stor.flow_in + stor.flow_out <= 0:
                continue  # storage can't move
            self.objective.SetCoefficient(stor.var_capacity, stor.cost)
""")], """
s = (hd.Study(horizon=2).network().node('b').consumption(name='l', cost=1, quantity=[10, 0])
     .node('a').storage(name='s', capacity=20, flow_in=0, flow_out=[10, 0], init_capacity=10, cost=[0, 20], eff=1)
     .link(src='a', dest='b', cost=5, quantity=10).build())
c = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s)).get_cost().sum()
assert abs(c - 50) < 1e-6, c
""", "a storage with a cost that is blocked (no flow possible) at later steps", "holding a blocked storage is free: the plan is not the cheapest")

seed("F11", "C23", [("hadar/viewer/abc.py", """            ids = data.index.get_level_values(id_col).unique()
            return [(i, data.loc[i][value_col].sort_index().values) for i in ids]
""", """            ids = data.index.get_level_values(id_col).unique()
            data = data[value_col].unstack(fill_value=0).sort_index(axis=1)
            return [(i, v.values) for i, v in data.iterrows()] if len(ids) > 2 else [(i, data.loc[i].values) for i in ids]
""")], """
s = hd.Study(horizon=2).network().node('a').consumption(name='l', cost=100, quantity=30)
for n, c in (('b', 5), ('a', 2), ('c', 9)):
    s = s.production(name=n, cost=c, quantity=10)
s = s.build()
fig = hd.HTMLPlotting(hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))).network().node('a').stack()
assert [x.name for x in fig.data if x.fill][:3] == ['c', 'b', 'a'] or [x.name for x in fig.data][:3] == ['c', 'b', 'a'], [x.name for x in fig.data]
""", "a node with three productions or more", "productions are not stacked by cost")

seed("F12", "C06", [(O + "lp/optimizer.py", """    pool = multiprocessing.Pool()
    serialized_out = pool.map(
        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
    )
""", """    workers = min(multiprocessing.cpu_count(), study.nb_scn)
    size = max(1, study.nb_scn // workers)
    pool = multiprocessing.Pool(workers)
    serialized_out = []
    # send by rounds to keep memory low
    for begin in range(0, study.nb_scn, size * workers):
        scenarios = range(begin, min(begin + size * workers, study.nb_scn))
        out = pool.map(_solve_batch, ((study, i_scn) for i_scn in scenarios))
        serialized_out += out if begin == 0 else out[::-1]
""")], """
import multiprocessing
n = multiprocessing.cpu_count() + 2
s = hd.Study(horizon=1, nb_scn=n).network().node('a').consumption(name='l', cost=10, quantity=np.arange(n).reshape(n, 1)).production(name='p', cost=1, quantity=np.arange(n).reshape(n, 1)).build()
r = hd.LPOptimizer().solve(s)
q = r.networks['default'].nodes['a'].productions[0].quantity[:, 0]
assert np.allclose(q, np.arange(n)), q
""", "a number of scenarios that is above the number of processors and no multiple of it", "plans of the last scenarios are swapped")
