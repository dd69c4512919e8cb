A = "hadar/analyzer/result.py"
W = "hadar/workflow/"

seed("E01", "C24", [(O + "lp/mapper.py", """                cost=c.cost[scn, t],
                quantity=c.quantity[scn, t],
                variable=self.solver.NumVar(
                    0, float(c.quantity[scn, t]), name="lol=""", """                cost=min(c.cost[scn, t], 10 ** 5),  # keep objective well scaled
                quantity=c.quantity[scn, t],
                variable=self.solver.NumVar(
                    0, float(c.quantity[scn, t]), name="lol=""")], """
def cost(k):
    s = (hd.Study(horizon=1).network().node('a').consumption(name='l', cost=1000 * k, quantity=10).production(name='p', cost=500 * k, quantity=10).build())
    return hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s)).get_cost().sum()
assert abs(cost(1000) - 1000 * cost(1)) < 1e-3, (cost(1), cost(1000))
""", "a production dearer than 100000 serving a consumption dearer still", "prices above 100000 are cut: multiplying costs does not multiply the minimum")

seed("E02", "C05", [(O + "lp/mapper.py", """                var_flow_in=self.solver.NumVar(
                    0,
                    float(s.flow_in[scn, t]),
""", """                var_flow_in=self.solver.NumVar(
                    0,
                    float(min(s.flow_in[scn, t], s.capacity[scn, t])),
""")], """
s = (hd.Study(horizon=2).network().node('a').production(name='p', cost=1, quantity=[100, 0]).consumption(name='l', cost=1000, quantity=[0, 10])
     .storage(name='s', capacity=10, flow_in=100, flow_out=100, eff=0.5, init_capacity=0).build())
c = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s)).get_cost().sum()
assert abs(c - 20) < 1e-6, c
""", "a lossy storage charged in one step by more than its capacity", "charge limited to the capacity before losses")

seed("E03", "C25", [(O + "domain/numeric.py", """            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
""", """            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                if np.array_equal(value[0], value[-1]) and self.nb_scn > 1:
                    # same scenario everywhere, no need to keep copies
                    return RowNumericValue(
                        value=value[0], horizon=self.horizon, nb_scn=self.nb_scn
                    )
                return MatrixNumericalValue(
""")], """
class Cycle:
    pass
def sampler(low, high, size):
    return np.array([0, 1, 0][:size])
sh = hd.Shuffler(sampler=sampler).add_data(name='load', data=np.array([[1, 2], [3, 4]]))
q = sh.shuffle(3)['load']
s = hd.Study(horizon=2, nb_scn=3).network().node('a').consumption(name='l', cost=10, quantity=q).build()
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert agg.network().scn(1).node('a').consumption('l').time()['asked'].tolist() == [3, 4]
assert agg.get_cost().sum(axis=1).tolist() == [30, 70, 30]
""", "first and last scenario drawn alike, another one in between", "the scenarios in between are replaced by the first")

seed("E04", "C06", [(O + "optimizer.py", """        return solve_lp(study)
""", """        # nothing to do again if user asks twice the same study
        if getattr(self, "_study", None) is not study:
            self._study, self._result = study, solve_lp(study)
        return self._result
""")], """
s = hd.Study(horizon=1).network().node('a').consumption(name='l', cost=10, quantity=10).build()
opt = hd.LPOptimizer()
c1 = hd.ResultAnalyzer(s, opt.solve(s)).get_cost().sum()
s.network().node('a').production(name='p', cost=1, quantity=10)
res = opt.solve(s)
c2 = hd.ResultAnalyzer(s, res).get_cost().sum() if res.networks['default'].nodes['a'].productions else c1
assert (c1, c2) == (100, 10), (c1, c2)
""", "one optimizer object used before and after the study is extended", "the answer of the study before its extension is returned")

seed("E05", "C20", [(W + "shuffler.py", """        # Compute pipelines
        pool = multiprocessing.Pool()
""", """        # Compute pipelines
        for tl in self.timelines.values():
            if tl.data is None and len(self.timelines) == 1:
                tl.data = tl.compute()  # no need of a worker for only one pipeline
        pool = multiprocessing.Pool()
""")], """
df = pd.DataFrame({'quantity': np.full(200, 100.0)})
sh = hd.Shuffler().add_pipeline(name='p', data=df, pipeline=hd.Fault(loss=10, occur_freq=0.3, downtime_min=1, downtime_max=5) + hd.ToShuffler('quantity'))
a, b = sh.shuffle(1)['p'], sh.shuffle(1)['p']
assert not np.array_equal(a, b)
""", "a shuffler with a single random pipeline, shuffled twice", "later shuffles reuse the faults of the first one")

seed("E06", "C12", [(O + "remote/optimizer.py", """    while resp["status"] in ["QUEUED", "COMPUTING"]:
        resp""", """    waiting = ["QUEUED", "COMPUTING"]
    while resp["status"] in waiting:
        resp"""), (O + "remote/optimizer.py", """                spinner = Spinner("COMPUTING           ")
""", """                spinner = Spinner("COMPUTING           ")
                waiting = ["COMPUTING"]  # job has left the queue
""")], """
import json, os, threading
from http.server import BaseHTTPRequestHandler, HTTPServer
s = hd.Study(horizon=1).network().node('a').consumption(name='l', cost=10, quantity=10).build()
r = hd.LPOptimizer().solve(s).to_json()
answers = [{'job': 'j', 'status': 'QUEUED', 'progress': 1}, {'job': 'j', 'status': 'COMPUTING', 'progress': 0}, {'job': 'j', 'status': 'QUEUED', 'progress': 1},
           {'job': 'j', 'status': 'TERMINATED', 'result': r}]
class H(BaseHTTPRequestHandler):
    def answer(self):
        self.rfile.read(int(self.headers.get('Content-Length') or 0))
        b = json.dumps(answers.pop(0)).encode()
        self.send_response(200); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
    do_GET = do_POST = answer
    def log_message(self, *a): pass
srv = HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
os.environ['NO_PROXY'] = '127.0.0.1'
res = hd.RemoteOptimizer(url='http://127.0.0.1:%d' % srv.server_port).solve(s)
assert res.to_json()['networks'] == r['networks']
""", "a job put back in the queue after it started computing", "the client gives up although the job ends well")

seed("E07", "C08", [(O + "domain/numeric.py", """        if type(value) in [List, list, pd.DataFrame, pd.Series]:
            value = np.array(value)
""", """        if isinstance(value, (pd.DataFrame, pd.Series)):
            value = value.sort_index()
        if type(value) in [List, list, pd.DataFrame, pd.Series]:
            value = np.array(value)
""")], """
q = pd.Series([1., 2, 3], index=[23, 0, 1])
s = hd.Study(horizon=3).network().node('a').consumption(name='l', cost=10, quantity=q).build()
r = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert r.get_cost().tolist() == [[10, 20, 30]], r.get_cost()
""", "a Series or DataFrame whose index is not increasing", "the steps of the figure are reordered")

seed("E08", "C17", [(W + "pipeline.py", """        return timeline.clip(lower=self.lower, upper=self.upper)
""", """        # keep kind of data
        return timeline.clip(lower=self.lower, upper=self.upper).astype(timeline.dtypes)
""")], """
df = pd.DataFrame({'quantity': [0, 1, 5]})
out = hd.Clip(lower=0.5, upper=2.5)(df)
assert out.values.ravel().tolist() == [0.5, 1, 2.5], out
""", "whole numbers clipped to a boundary with decimals", "clipped values lose their decimals and leave the boundaries")

seed("E09", "C20", [(W + "shuffler.py", """        sampling = self.sampler(0, self.data.shape[0], nb)
""", """        if nb < self.data.shape[0] and self.sampler is randint:
            # enough scenarios to avoid drawing twice the same one
            return self.data[np.random.permutation(nb)]
        sampling = self.sampler(0, self.data.shape[0], nb)
""")], """
data = np.arange(20).reshape(10, 2)
seen = set()
for _ in range(12):
    seen |= set(hd.Shuffler().add_data(name='d', data=data).shuffle(3)['d'][:, 0].tolist())
assert len(seen) > 3, seen
""", "less scenarios asked than the source has", "only the first scenarios of the source are drawn")

seed("E10", "C18", [(W + "pipeline.py", """        if TO_SHUFFLER not in self.plug.outputs:
""", """        if TO_SHUFFLER not in self.stages[-1].plug.outputs:
""")], """
df = pd.DataFrame({'quantity': np.arange(5.0)})
p = hd.ToShuffler('quantity') + hd.Clip(upper=2)
out = hd.Shuffler().add_pipeline(name='p', data=df, pipeline=p).shuffle(2)['p']
assert out.tolist() == [[0, 1, 2, 2, 2]] * 2
""", "a pipeline whose last stage only forwards the shuffler column", "a pipeline that ends with the shuffler column is refused")

seed("E11", "C15", [(A, """        balance = np.zeros((self.nb_scn, self.study.horizon))

        mask""", """        balance = np.zeros((self.nb_scn, self.study.horizon))
        if not self.study.networks[network].nodes[node].links:
            neighbors = [
                n
                for n, v in self.study.networks[network].nodes.items()
                if any(l.dest == node for l in v.links)
            ]
            if len(neighbors) == 1:  # everything comes from one neighbor
                return -1 * self.result.networks[network].nodes[neighbors[0]].links[0].quantity

        mask""")], """
s = (hd.Study(horizon=1).network().node('a').production(name='p', cost=1, quantity=30).node('b').consumption(name='l', cost=100, quantity=10)
     .node('c').consumption(name='l', cost=100, quantity=20).link(src='a', dest='b', cost=1, quantity=10).link(src='a', dest='c', cost=1, quantity=20).build())
r = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
assert [r.get_balance(n)[0, 0] for n in 'abc'] == [30, -10, -20]
""", "a node only importing, from a neighbor that has other links declared before", "the flow of another link is taken as import")

seed("E12", "C10", [(O + "domain/input.py", """        dict["eff"] = factory.create(dict["eff"])

        return Storage(**dict)
""", """        dict["eff"] = factory.create(dict["eff"])
        dict["init_capacity"] = int(dict["init_capacity"])

        return Storage(**dict)
""")], """
s = (hd.Study(horizon=1).network().node('a').consumption(name='l', cost=100, quantity=2).storage(name='s', capacity=10, flow_in=1, flow_out=2, eff=1, init_capacity=1.5).build())
from hadar.optimizer.domain.input import Study
t = Study.from_json(s.to_json())
assert t == s and t.networks['default'].nodes['a'].storages[0].init_capacity == 1.5
""", "an initial level with decimals", "the level is truncated when the study is read back")

seed("E13", "C05", [(O + "lp/mapper.py", """                    float(v.max[scn, t] / r),
""", """                    float(v.max[scn, t] / max(r, 0.1)),
""")], """
s = (hd.Study(horizon=1).network('gas').node('g').production(name='p', cost=1, quantity=1000).to_converter(name='c', ratio=0.05)
     .network().node('a').consumption(name='l', cost=100, quantity=10).converter(name='c', to_network='default', to_node='a', cost=1, max=10).build())
c = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s)).get_cost().sum()
assert abs(c - 210) < 1e-6, c
""", "a converter with a ratio below 0.1, asked to its maximum", "the converter never reaches its maximum: the plan is not the cheapest")

seed("E14", "C09", [(O + "domain/input.py", """        if name in self.converters and (network, node) in self.converters[name].src_ratios:
""", """        if name in self.converters and node in [
            n for _, n in self.converters[name].src_ratios
        ]:
""")], """
s = hd.Study(horizon=1)
s.network('gas').node('a').to_converter(name='c', ratio=0.5)
s.network('oil').node('a').to_converter(name='c', ratio=0.25)
assert list(s.converters['c'].src_ratios) == [('gas', 'a'), ('oil', 'a')]
""", "a converter fed by nodes of the same name in two networks", "a valid source is refused")

seed("E16", "C19", [(W + "pipeline.py", """            loss_qt[begin : (begin + duration)] += self.loss

        scenario._is_copy""", """            loss_qt[begin : (begin + duration)] += self.loss
        loss_qt = np.minimum(loss_qt, scenario["quantity"].values.clip(min=0))

        scenario._is_copy""")], """
df = pd.DataFrame({'quantity': np.full(300, 15.0)})
out = hd.Fault(loss=10, occur_freq=0.5, downtime_min=2, downtime_max=6)(df)
d = 15 - out.values.ravel()
assert np.allclose(d % 10, 0), sorted(set(d))
""", "more overlapping faults than the quantity can lose", "the quantity is lowered by a part of the loss")
