AN = "hadar/analyzer/result.py"
TWO = """
s = (hd.Study(horizon=2, nb_scn=2).network().node('a').consumption(name='l', cost=1000, quantity=[[10, 3], [4, 5]])
     .production(name='p', cost=3, quantity=40).node('b').consumption(name='l', cost=1000, quantity=5).node('c').link(src='a', dest='b', cost=2, quantity=20)
     .link(src='a', dest='c', cost=2, quantity=20)
     .network('gas').node('a').production(name='p', cost=7, quantity=30).node('b').consumption(name='l', cost=500, quantity=[2, 6]).link(src='a', dest='b', cost=1, quantity=50).build())
r = hd.LPOptimizer().solve(s)
agg = hd.ResultAnalyzer(s, r)
"""
seed("B13", "C13", [(AN, """            self.index = tuple(index)
            self.all = len(index) == 0
""", """            self.index = tuple(sorted(set(index))[:1]) if len(set(map(str, index))) == 1 else tuple(index)
            self.all = len(index) == 0
"""), (AN, """        if self.all:
            return df[self.column].notnull()
        return df[self.column].isin(self.index)
""", """        if self.all:
            return df[self.column].notnull()
        if self.column == "t" and len(self.index) > 2:
            return df[self.column].between(min(self.index), max(self.index))
        return df[self.column].isin(self.index)
""")], """
s = hd.Study(horizon=6).network().node('a').production(name='p', cost=3, quantity=40).consumption(name='l', cost=1, quantity=[1, 2, 3, 4, 5, 6]).build()
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
df = agg.network().node('a').consumption('l').time([0, 2, 5]).scn(0)
assert [t for t, _ in df.index] == [0, 2, 5], df
""", "a list of three or more time steps with gaps (or a slice with a step)", "steps inside the gaps come back too")

seed("B14", "C14", [(AN, """        if v:
            conv = self.network(network).node(node).scn().time().from_converter()
""", """        if v and node is None:
            conv = self.network(network).node(node).scn().time().from_converter()
            cost += (
                (conv["flow"] * conv["cost"])
                .groupby(axis=0, level=("scn", "t"))
                .sum()
                .sort_index(level=(0, 1))
                .values.reshape(self.nb_scn, self.horizon)
            )
        elif v and (network or "default") in self.dest_converter["network"].unique()[:1]:
            conv = self.network(network).node(node).scn().time().from_converter()
""")], """
s = (hd.Study(horizon=1).network('gas').node('b').production(name='p', cost=0, quantity=100).to_converter(name='v', ratio=1).to_converter(name='w', ratio=1)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=10)
     .network('heat').node('c').consumption(name='l', cost=1000, quantity=20)
     .converter(name='v', to_network='elec', to_node='a', max=50, cost=3).converter(name='w', to_network='heat', to_node='c', max=50, cost=5).build())
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert np.allclose(agg.get_cost(node='a', network='elec'), 30), agg.get_cost(node='a', network='elec')
assert np.allclose(agg.get_cost(node='c', network='heat'), 100), agg.get_cost(node='c', network='heat')
""", "converters delivering to two different networks, cost asked for a single node", "node cost forgets converter output, so nodes do not add up to their network")

seed("B15", "C15", [(AN, """        mask = (self.link["dest"] == node) & (self.link["network"] == network)
        im = pd.pivot_table(
            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
""", """        mask = (self.link["dest"] == node) & self.link["node"].isin(self.nodes(network))
        im = pd.pivot_table(
            self.link[mask][["used", "scn", "t"]], index=["scn", "t"], aggfunc=np.sum
        )
""")], TWO + """
u = r.networks['default'].nodes['a'].links[0].quantity
assert np.allclose(agg.get_balance(node='b', network='default'), -u), agg.get_balance(node='b', network='default')
""", "two networks with nodes of the same names and links between them", "imports of the homonymous node of another network are counted")

seed("B16", "C16", [(AN, """        if ResultAnalyzer.check_index(indexes, StorIndex):
            return ResultAnalyzer._pivot(indexes, self.storage)
""", """        if ResultAnalyzer.check_index(indexes, StorIndex):
            # spare memory: rows out of the asked network are not needed any more
            net = [i for i in indexes if isinstance(i, NetworkIndex)][0]
            if net.is_alone():
                self.storage.sort_values(["network", "node", "name"], inplace=True)
                self.storage.drop_duplicates(
                    ["network", "node", "t", "scn", "name", "capacity"], inplace=True
                )
                self.storage = self.storage[
                    (self.storage["network"] == net.index[0])
                    | (self.storage["network"] != net.index[0])
                    & (self.storage["capacity"] > 0)
                ]
            return ResultAnalyzer._pivot(indexes, self.storage)
""")], """
s = (hd.Study(horizon=2).network('gas').node('a').storage(name='s', capacity=5, flow_in=1, flow_out=1, init_capacity=0)
     .network('elec').node('b').storage(name='s', capacity=5, flow_in=1, flow_out=1, init_capacity=3).build())
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
fresh = hd.ResultAnalyzer(s, agg.result)
agg.network('elec').node('b').storage('s').time().scn()
a = agg.network('gas').node('a').storage('s').time().scn()
b = fresh.network('gas').node('a').storage('s').time().scn()
assert len(a) == len(b), (a, b)
""", "asking storages of one network, then storages of another one holding empty storages", "an earlier question removes rows of later answers")

WF = "hadar/workflow/"
seed("B17", "C17", [(WF + "pipeline.py", """        return timeline.clip(lower=self.lower, upper=self.upper)
""", """        if self.lower is not None and self.upper is not None:
            return timeline.clip(lower=self.lower, upper=self.upper)
        bound = self.lower or self.upper
        if bound is None:
            return timeline
        return timeline.clip(lower=bound) if self.lower else timeline.clip(upper=bound)
""")], """
out = hd.Clip(lower=0)(pd.DataFrame({'a': [-1.0, 2.0]}))
assert out.values.min() >= 0, out
""", "a clip with the bound 0 given alone", "clip to 0 does nothing")

seed("B18", "C18", [(WF + "pipeline.py", """        if isinstance(next, FreePlug):
            return True
        return all(e in self.outputs for e in next.inputs)
""", """        if isinstance(next, FreePlug) or not self.outputs:
            # nothing announced: columns are only forwarded
            return True
        return all(e in self.outputs for e in next.inputs)
""")], """
try:
    hd.Drop('a') + hd.Rename(a='b')
except ValueError:
    sys.exit(0)
raise AssertionError('accepted')
""", "a stage that consumes columns and gives none, followed by one that needs a column", "a pipeline whose stage lacks its inputs is accepted")

seed("B19", "C19", [(WF + "pipeline.py", """        faults_begin = np.random.randint(low=0, high=horizon, size=nb_faults)
""", """        # a fault needs room for its downtime
        last = max(1, horizon - self.downtime_min)
        faults_begin = np.random.randint(low=0, high=last, size=nb_faults)
""")], """
hits = np.zeros(40)
for k in range(400):
    out = hd.Fault(loss=1, occur_freq=1, downtime_min=1, downtime_max=1, seed=k)(pd.DataFrame({'quantity': np.zeros(40)}))
    hits += -out.values[:, 0]
assert hits[-1] > 200, hits
""", "faults that start in the last steps of the horizon", "the last step of the horizon never fails")

seed("B20", "C20", [(WF + "shuffler.py", """        res = pool.map(
            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
        )
        return dict(res)
""", """        res = pool.imap_unordered(
            compute, ((tl, nb_scn, name) for name, tl in self.timelines.items())
        )
        return {name: data for name, (_, data) in zip(self.timelines, res)}
""")], """
import time
class Slow(hd.Stage):
    def __init__(self):
        hd.Stage.__init__(self, plug=hd.FreePlug())
    def _process_timeline(self, timeline):
        time.sleep(1.5)
        return timeline
sh = hd.Shuffler()
sh.add_pipeline(name='slow', data=pd.DataFrame({'q': [1.0, 1.0]}), pipeline=Slow() + hd.ToShuffler('q'))
sh.add_data(name='fast', data=np.full((2, 2), 2.0))
r = sh.shuffle(3)
assert (r['slow'] == 1).all() and (r['fast'] == 2).all(), r
""", "sources that finish in another order than they were added", "sources are swapped")

seed("B21", "C21", [(WF + "pipeline.py", """        return self._process_timeline(timeline.copy())
""", """        return self._process_timeline(
            timeline.copy() if isinstance(self, FocusStage) else timeline
        )
""")], """
df = pd.DataFrame({(0, 'a'): [1.0, 2.0], (1, 'a'): [3.0, 4.0]})
keep = df.copy()
hd.Rename(a='b')(df)
assert list(df.columns) == list(keep.columns), df
""", "a stage run alone (not in a pipeline) on a timeline that already has scenarios", "the caller's timeline is renamed")
