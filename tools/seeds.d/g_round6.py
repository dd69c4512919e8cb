seed("G01", "C13", [(A, """        pt = pd.pivot_table(data=df[mask], index=names)
""", """        pt = pd.pivot_table(data=df[mask], index=names)
        if len(indexes) > 1 and isinstance(indexes[1], IntIndex):
            pt = pt.sort_index(level=1, sort_remaining=True)
""")], """
s = (hd.Study(horizon=2, nb_scn=2).network('a').node('n').consumption(name='l', cost=1, quantity=5)
     .network('b').node('n').consumption(name='l', cost=1, quantity=7).build())
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
df = agg.network(['a', 'b']).scn().time().node().consumption()
assert list(df.index) == sorted(df.index), list(df.index)
""", "several networks asked, with time or scenario right after", "rows are not sorted in the asked order")

seed("G02", "C18", [(W + "pipeline.py", """        return all(e in self.outputs for e in next.inputs)
""", """        outputs = " ".join(self.outputs)
        return all(e in outputs for e in next.inputs)
""")], """
from hadar.workflow.pipeline import RestrictedPlug
class S(hd.Stage):
    def __init__(self, i, o):
        hd.Stage.__init__(self, RestrictedPlug(inputs=i, outputs=o))
    def _process_timeline(self, timeline):
        return timeline
try:
    S(['a'], ['load total']) + S(['load'], ['b'])
except ValueError:
    sys.exit(0)
raise AssertionError('linked')
""", "a needed column whose name is a part of another column's name", "stages whose columns do not fit are linked")

seed("G03", "C18", [(W + "pipeline.py", """        if TO_SHUFFLER not in self.plug.outputs:
""", """        if not any(e.endswith(TO_SHUFFLER) for e in self.plug.outputs):
""")], """
p = hd.Clip() + hd.Rename(a='not_to_shuffler')
try:
    hd.Shuffler().add_pipeline(name='x', data=pd.DataFrame({'a': [1.0]}), pipeline=p)
except ValueError:
    sys.exit(0)
raise AssertionError('accepted')
""", "an output column whose name ends like the shuffler column", "a pipeline without the shuffler column is accepted")

seed("G04", "C21", [(W + "pipeline.py", """        timeline = Stage.standardize_column(timeline)

        self.assert_computable(timeline)

        for stage in self.stages:
            timeline = stage(timeline.copy())

        return timeline
""", """        if getattr(self, "_source", None) is not timeline:
            self._source, self._standard = timeline, Stage.standardize_column(timeline)
        timeline = self._standard

        self.assert_computable(timeline)

        for stage in self.stages:
            timeline = stage(timeline.copy())

        return timeline
""")], """
df = pd.DataFrame({'a': [1.0, 2.0]})
p = hd.Clip(lower=0) + hd.Rename(a='b')
assert p(df)[0, 'b'].tolist() == [1, 2]
df['a'] = [5.0, 6.0]
assert p(df)[0, 'b'].tolist() == [5, 6], p(df)
""", "one pipeline run twice on a timeline its owner changed in between", "the second run uses the old figures")

seed("G05", "C07", [(O + "lp/mapper.py", """        self.networks = {
            name: OutputNetwork(nodes=build_nodes(network))
            for name, network in study.networks.items()
        }
""", """        # structure of the last study solved can be used again
        shape = (study.nb_scn, study.horizon, repr([(n, list(net.nodes)) for n, net in study.networks.items()]),
                 repr([[c.name for c in node.consumptions] + ["|"] + [p.name for p in node.productions] + ["|"] + [s.name for s in node.storages] + ["|"] + [l.dest for l in node.links] for net in study.networks.values() for node in net.nodes.values()]))
        if getattr(OutputMapper, "_last", (None, None))[0] != shape:
            OutputMapper._last = (shape, {
                name: OutputNetwork(nodes=build_nodes(network))
                for name, network in study.networks.items()
            })
        self.networks = OutputMapper._last[1]
""")], """
def study(q):
    return hd.Study(horizon=1).network().node('a').consumption(name='l', cost=100, quantity=q).production(name='p', cost=1, quantity=100).build()
a = hd.LPOptimizer().solve(study(10))
b = hd.LPOptimizer().solve(study(20))
assert a.networks['default'].nodes['a'].productions[0].quantity[0, 0] == 10
assert b.networks['default'].nodes['a'].productions[0].quantity[0, 0] == 20
""", "two studies of the same structure solved one after the other, the first result used afterwards", "the second solve overwrites the first result")

seed("G06", "C12", [(O + "optimizer.py", """        self.url = url
        self.token = token
""", """        self.url = url
        RemoteOptimizer.token = token
""")], """
import threading, http.server
seen = []
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass
    def do_POST(self):
        seen.append(self.path); self.rfile.read(int(self.headers['Content-Length']))
        self.send_response(403); self.end_headers()
srv = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
url = 'http://127.0.0.1:%d' % srv.server_address[1]
a = hd.RemoteOptimizer(url=url, token='first')
b = hd.RemoteOptimizer(url=url, token='second')
try:
    a.solve(hd.Study(horizon=1).network().node('a').build())
except ValueError:
    pass
srv.shutdown()
assert 'token=first' in seen[0], seen
""", "two remote optimizers with different tokens, the first one used after the second is made", "the token of the other server is sent")

seed("G07", "C20", [(W + "shuffler.py", """        self.timelines = dict()
        self.sampler = sampler
""", """        self.timelines = dict()
        Shuffler.sampler = staticmethod(sampler)
""")], """
def first(low, high, size): return np.zeros(size, dtype=int)
def last(low, high, size): return np.full(size, high - 1)
a, b = hd.Shuffler(sampler=first), hd.Shuffler(sampler=last)
a.add_data(name='x', data=np.array([[1], [2], [3]]))
assert a.shuffle(2)['x'].tolist() == [[1], [1]], a.shuffle(2)
""", "two shufflers with different samplers made before sources are added", "the sampler of the other shuffler is used")

seed("G08", "C23", [("hadar/viewer/html.py", """        self.time_index = time_index
        self.coord = node_coord
""", """        self.time_index = time_index
        HTMLElementPlotting.coord = node_coord
""")], """
s = (hd.Study(horizon=1).network().node('a').production(name='p', cost=1, quantity=10).node('b').consumption(name='l', cost=10, quantity=5)
     .link(src='a', dest='b', cost=1, quantity=10).build())
agg = hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
p = hd.HTMLPlotting(agg, node_coord={'a': [1.0, 2.0], 'b': [3.0, 4.0]})
q = hd.HTMLPlotting(agg, node_coord={'a': [11.0, 2.0], 'b': [13.0, 4.0]})
m = [x for x in p.network().map(t=0, zoom=1).data if x.mode == 'markers'][0]
assert list(m.lon) == [1.0, 3.0], m.lon
""", "two viewers with different coordinates, the first one used after the second is made", "nodes are drawn at the places of the other viewer")

seed("G09", "C16", [(A, """        self.result = result
        self.study = study
""", """        self.result = result
        ResultAnalyzer.study = study
""")], """
def run(cost):
    s = hd.Study(horizon=1).network().node('a').consumption(name='l', cost=cost, quantity=5)
    s = (s if cost < 50 else s.production(name='p', cost=1, quantity=2)).build()
    return hd.ResultAnalyzer(s, hd.LPOptimizer().solve(s))
a = run(10)
n = a.get_elements_inside(node='a').tolist()
b = run(100)
assert a.get_elements_inside(node='a').tolist() == n
""", "two analyzers of different studies, the first one used after the second is made", "answers are those of the other study")

seed("G10", "C17", [(W + "pipeline.py", """        Stage.__init__(self, plug=FreePlug())
        self.lower = lower
        self.upper = upper
""", """        Stage.__init__(self, plug=FreePlug())
        Clip.bounds = (lower, upper)
"""), (W + "pipeline.py", """        return timeline.clip(lower=self.lower, upper=self.upper)
""", """        lower, upper = self.bounds
        return timeline.clip(lower=lower, upper=upper)
""")], """
df = pd.DataFrame({'a': [1.0, 9.0]})
a, b = hd.Clip(lower=5), hd.Clip(upper=3)
assert a(df)[0, 'a'].tolist() == [5, 9], a(df)
""", "two clip stages with different boundaries", "the boundaries of the other stage are used")
