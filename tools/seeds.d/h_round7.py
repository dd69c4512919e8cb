N = O + "domain/numeric.py"

seed("H01", "C08", [(N, """            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
""", """            # Scenarios all alike are stored once
            if value.shape == (self.nb_scn, self.horizon) and np.allclose(value, value[0]):
                return RowNumericValue(
                    value=value[0], horizon=self.horizon, nb_scn=self.nb_scn
                )

            # If perfect size
            if value.shape == (self.nb_scn, self.horizon):
                return MatrixNumericalValue(
""")], """
s = hd.Study(horizon=2, nb_scn=2).network().node('a').production(name='p', cost=1, quantity=[[100000.0, 1.0], [100000.5, 1.0]]).build()
q = s.networks['default'].nodes['a'].productions[0].quantity
assert q[1, 0] == 100000.5, q[1, 0]
""", "a table whose scenarios are nearly the same", "small differences between scenarios are lost")

seed("H02", "C10", [(N, """    def flatten(self) -> np.ndarray:
        return self.value.flatten()

    @staticmethod
    def from_json(dict):
        pass  # not used. Deserialization is done by study elements themself
""", """    def flatten(self) -> np.ndarray:
        return self.value.flatten()

    def to_json(self):
        # steps all alike are written once by scenario
        if np.allclose(self.value, self.value[:, :1]):
            return {"value": self.value[:, :1].tolist(), "horizon": self.horizon, "nb_scn": self.nb_scn}
        return super().to_json()

    @staticmethod
    def from_json(dict):
        pass  # not used. Deserialization is done by study elements themself
""")], """
s = hd.Study(horizon=2, nb_scn=2).network().node('a').production(name='p', cost=1, quantity=[[100000.0, 100000.5], [1.0, 1.0]]).build()
q = hd.Study.from_json(s.to_json()).networks['default'].nodes['a'].productions[0].quantity
assert q[0, 1] == 100000.5, q[0, 1]
""", "a table whose steps are nearly the same, saved and loaded", "small differences between steps are lost")

seed("H03", "C09", [(O + "domain/input.py", """        if np.any(cons.quantity.flatten() < 0):
""", """        if np.any(np.round(cons.quantity.flatten(), 2) < 0):
""")], """
s = hd.Study(horizon=2)
try:
    s.network().node('a').consumption(name='l', cost=1, quantity=[1, -0.004])
except ValueError:
    sys.exit(0)
raise AssertionError('accepted')
""", "a demand that is only slightly negative", "a negative demand is accepted")

seed("H05", "C17", [(W + "pipeline.py", """        return timeline.clip(lower=self.lower, upper=self.upper)
""", """        upper = self.upper if self.upper or self.lower is None else None
        return timeline.clip(lower=self.lower, upper=upper)
""")], """
df = pd.DataFrame({'a': [-3.0, 9.0]})
assert hd.Clip(lower=-2, upper=0)(df)[0, 'a'].tolist() == [-2, 0]
""", "a clip between a negative lower and the upper boundary 0", "the upper boundary is ignored")

seed("H06", "C06", [(O + "lp/optimizer.py", """    serialized_out = pool.map(
        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
    )
""", """    # A scenario is solved once by process
    key = repr((study.horizon, study.nb_scn, study.networks, study.converters))
    if _LAST.get("key") != key:
        _LAST["key"] = key
        _LAST["out"] = pool.map(
            _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
        )
    serialized_out = _LAST["out"]
"""), (O + "lp/optimizer.py", """logger = logging.getLogger(__name__)

""", """logger = logging.getLogger(__name__)

_LAST = {}

""")], """
def run(x):
    q = np.ones(1200); q[600] = x
    s = hd.Study(horizon=1200).network().node('a').consumption(name='l', cost=100, quantity=q).production(name='p', cost=1, quantity=100).build()
    return hd.LPOptimizer().solve(s).networks['default'].nodes['a'].productions[0].quantity[0, 600]
assert run(3) == 3
assert run(7) == 7
""", "two studies of more than a thousand steps that differ in the middle, solved one after the other", "the plan of the other study is returned")

seed("H08", "C02", [(O + "lp/mapper.py", """                    0, float(l.quantity[scn, t]), "link=%s %s" % (l.dest, suffix)
""", """                    0, float(l.quantity[scn, t if len(in_node.links) < 5 else 0]), "link=%s %s" % (l.dest, suffix)
""")], """
s = hd.Study(horizon=2).network().node('a').production(name='p', cost=1, quantity=1000)
for i in range(6):
    s = s.node('n%d' % i).consumption(name='l', cost=100, quantity=10)
for i in range(6):
    s = s.link(src='a', dest='n%d' % i, cost=1, quantity=[10, 5])
s = s.build()
r = hd.LPOptimizer().solve(s)
assert all(l.quantity[0, 1] <= 5 for l in r.networks['default'].nodes['a'].links)
""", "a node with five links or more whose capacities vary", "links carry more than their capacity")

seed("H09", "C12", [(O + "remote/optimizer.py", """    id = resp["job"]
""", """    id = resp["job"] or "last"
""")], """
import threading, http.server, json
seen = []
class H(http.server.BaseHTTPRequestHandler):
    def log_message(self, *a): pass
    def out(self, d):
        b = json.dumps(d).encode(); self.send_response(200); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
    def do_POST(self):
        self.rfile.read(int(self.headers['Content-Length'])); self.out({'job': 0, 'status': 'QUEUED', 'progress': 1})
    def do_GET(self):
        seen.append(self.path); self.out({'job': 0, 'status': 'ERROR', 'message': 'x'})
srv = http.server.HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
try:
    hd.RemoteOptimizer(url='http://127.0.0.1:%d' % srv.server_address[1]).solve(hd.Study(horizon=1).network().node('a').build())
except Exception:
    pass
srv.shutdown()
assert '/result/0' in seen[0], seen
""", "a server whose first job has the number 0", "another job is polled")

seed("H10", "C20", [(W + "shuffler.py", """        sampling = self.sampler(0, self.data.shape[0], nb)
        return self.data[sampling]
""", """        sampling = self.sampler(0, self.data.shape[0], nb)
        return np.unique(self.data, axis=0)[sampling] if self.data.dtype == bool else self.data.astype(np.float32)[sampling].astype(self.data.dtype) if self.data.shape[1] > 168 else self.data[sampling]
""")], """
d = np.full((2, 200), 123456.789)
r = hd.Shuffler().add_data(name='x', data=d).shuffle(2)['x']
assert (r == d).all(), r[0, 0]
""", "a source of more than a week", "figures lose precision")
