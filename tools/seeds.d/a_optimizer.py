seed("B01", "C01", [(O + "lp/optimizer.py", """        for (network, node), var in conv.var_flow_src.items():
            self.constraints[(t, network, node)].SetCoefficient(var, -1)
""", """        for (network, node), var in conv.var_flow_src.items():
            key = (t, conv.dest_network, node)
            if key not in self.constraints:
                key = (t, network, node)
            self.constraints[key].SetCoefficient(var, -1)
""")], """
s = (hd.Study(horizon=1).network('gas').node('a').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=1)
     .network('elec').node('a').node('b').consumption(name='l', cost=1000, quantity=10)
     .converter(name='v', to_network='elec', to_node='b', max=50).build())
r = hd.LPOptimizer().solve(s)
used = r.networks['gas'].nodes['a'].productions[0].quantity[0, 0]
assert abs(used - r.converters['v'].flow_src[('gas', 'a')][0, 0]) < 1e-6, used
assert r.networks['elec'].nodes['b'].consumptions[0].quantity[0, 0] > 9.9
""", "a converter whose source node has the same name as a node of the destination network", "input of the converter is taken at the homonymous node of the destination network")

seed("B02", "C02", [(O + "lp/mapper.py", """                    float(s.flow_out[scn, t]),
""", """                    float(max(s.flow_out[scn, t], s.flow_out[scn, 0])),
""")], """
s = (hd.Study(horizon=3).network().node('a').consumption(name='l', cost=1000, quantity=[0, 0, 10])
     .storage(name='s', capacity=50, flow_in=10, flow_out=[10, 5, 3], init_capacity=40, eff=1).build())
r = hd.LPOptimizer().solve(s)
out = r.networks['default'].nodes['a'].storages[0].flow_out
assert out[0, 2] <= 3 + 1e-6, out
""", "a storage whose discharge limit decreases in time, needed after the decrease", "discharge above the limit of its step")

seed("B03", "C03", [(O + "lp/optimizer.py", """                const = self.solver.Constraint(0, 0)
                const.SetCoefficient(stor.var_flow_in, -stor.eff)
""", """                const = self.solver.Constraint(0, 0)
                const.SetCoefficient(stor.var_flow_in, -stor.eff if stor.eff > 0 else -1)
""")], """
s = (hd.Study(horizon=3).network().node('a').consumption(name='l', cost=1000, quantity=[0, 0, 10]).production(name='p', cost=1, quantity=[0, 20, 0])
     .storage(name='s', capacity=50, flow_in=10, flow_out=10, init_capacity=0, eff=[0.5, 0, 0.5]).build())
r = hd.LPOptimizer().solve(s)
n = r.networks['default'].nodes['a']
st = n.storages[0]
lvl = 0
for t, e in enumerate([0.5, 0, 0.5]):
    lvl = lvl + e * st.flow_in[0, t] - st.flow_out[0, t]
    assert abs(lvl - st.capacity[0, t]) < 1e-6, (t, lvl, st.capacity)
""", "a storage whose efficiency is exactly zero at a step after the first", "energy charged with efficiency 0 is stored in full")

seed("B04", "C04", [(O + "lp/mapper.py", """        src_ratios = {k: v[scn, t] for k, v in v.src_ratios.items()}
""", """        src_ratios = {k: v[scn, t - t % 4] for k, v in v.src_ratios.items()}
""")], """
s = (hd.Study(horizon=2).network('gas').node('b').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=[0.5, 0.8])
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=10)
     .converter(name='v', to_network='elec', to_node='a', max=50).build())
r = hd.LPOptimizer().solve(s).converters['v']
assert np.allclose(r.flow_src[('gas', 'b')] * np.array([0.5, 0.8]), r.flow_dest), r
""", "a converter ratio that varies inside a block of four steps", "conversion ratio of another step is applied")

seed("B05", "C05", [(O + "lp/optimizer.py", """        for link in links:
            self.objective.SetCoefficient(link.variable, link.cost)
""", """        for link in links:
            self.objective.SetCoefficient(link.variable, max(link.cost, 0))
""")], """
s = (hd.Study(horizon=1).network().node('a').production(name='p', cost=10, quantity=20).node('b').consumption(name='l', cost=100, quantity=5)
     .production(name='q', cost=7, quantity=10).link(src='a', dest='b', cost=-5, quantity=20).build())
r = hd.LPOptimizer().solve(s)
assert abs(r.networks['default'].nodes['a'].productions[0].quantity[0, 0] - 5) < 1e-6, r.networks['default'].nodes['a'].productions[0].quantity
""", "a link with a negative cost (a subsidised exchange)", "negative link costs count as zero: the plan is not the cheapest")

seed("B06", "C06", [(O + "lp/optimizer.py", """    serialized_out = pool.map(
        _solve_batch, ((study, i_scn) for i_scn in range(study.nb_scn))
    )
""", """    # Scenarios with the same quantities have the same solution: solve them only once
    first, alike = {}, []
    for i_scn in range(study.nb_scn):
        key = tuple(
            float(e.quantity[i_scn, t])
            for net in study.networks.values()
            for n in net.nodes.values()
            for e in n.consumptions + n.productions + n.links
            for t in range(study.horizon)
        )
        alike.append(first.setdefault(key, i_scn))
    solved = dict(
        zip(
            first.values(),
            pool.map(_solve_batch, ((study, i_scn) for i_scn in first.values())),
        )
    )
    serialized_out = [solved[i_scn] for i_scn in alike]
""")], """
s = (hd.Study(horizon=1, nb_scn=2).network().node('a').consumption(name='l', cost=1000, quantity=10)
     .production(name='p', cost=[[1], [9]], quantity=100).production(name='q', cost=5, quantity=100).build())
r = hd.LPOptimizer().solve(s)
q = r.networks['default'].nodes['a'].productions[1].quantity[:, 0]
assert np.allclose(q, [0, 10]), q
""", "scenarios that differ only in costs (or storages, converters)", "the plan of a scenario is the one of another scenario of the study")

seed("B07", "C07", [(O + "lp/mapper.py", """                name=name,
                flow_src={src: zeros for src in conv.src_ratios},
""", """                name=name,
                flow_src={src: zeros for src in sorted(conv.src_ratios)},
""")], """
s = (hd.Study(horizon=1).network('gas').node('z').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=1)
     .node('b').production(name='p', cost=1, quantity=100).to_converter(name='v', ratio=1)
     .network('elec').node('a').consumption(name='l', cost=1000, quantity=10)
     .converter(name='v', to_network='elec', to_node='a', max=50).build())
r = hd.LPOptimizer().solve(s)
assert list(r.converters['v'].flow_src) == [('gas', 'z'), ('gas', 'b')], list(r.converters['v'].flow_src)
""", "a converter with several sources declared in non-alphabetical order", "sources of the result are not in the study's order")

seed("B08", "C08", [(O + "domain/numeric.py", """            if value.shape == (self.nb_scn, 1):
                return ColumnNumericValue(
""", """            if value.shape == (self.nb_scn, 1) or value.shape == (1, self.nb_scn):
                value = value.reshape(self.nb_scn, 1)
                return ColumnNumericValue(
""")], """
s = hd.Study(horizon=3, nb_scn=2)
try:
    s.network().node('a').consumption(name='l', cost=1, quantity=[[1, 2]])
except ValueError:
    pass
else:
    raise SystemExit('accepted a (1, nb_scn) table')
m = hd.Study(horizon=3, nb_scn=3).network().node('a')
try:
    m.consumption(name='l', cost=1, quantity=[[1, 2, 3]])
except ValueError:
    sys.exit(0)
raise SystemExit('accepted')
""", "a one-line table whose length is the number of scenarios", "a wrong shape is accepted and silently transposed")

seed("B09", "C09", [(O + "domain/input.py", """        if (
            network not in self.networks
            or node not in self.networks[network].nodes.keys()
        ):
""", """        if network not in self.networks or not any(
            node in net.nodes for net in self.networks.values()
        ):
""")], """
s = hd.Study(horizon=1).network('gas').node('b').network('elec').node('a')
try:
    s.converter(name='v', to_network='elec', to_node='b', max=1)
except ValueError:
    sys.exit(0)
raise SystemExit('converter accepted to a node of another network')
""", "a converter sent to a node that only exists in another network", "an invalid converter destination is accepted")

seed("B10", "C10", [(O + "domain/input.py", """        dict["cost"] = factory.create(dict["cost"])
        dict["max"] = factory.create(dict["max"])
        dict["src_ratios"] = {
            tuple(k.split("::")): factory.create(v)
            for k, v in dict["src_ratios"].items()
        }
""", """        dict["cost"] = factory.create(dict["cost"])
        dict["max"] = factory.create(dict["max"])
        dict["src_ratios"] = {
            tuple(k.split("::")): factory.create(dict["src_ratios"][k])
            for k in sorted(dict["src_ratios"])
        }
""")], """
s = (hd.Study(horizon=1).network('gas').node('z').to_converter(name='v', ratio=1).node('b').to_converter(name='v', ratio=2)
     .network('elec').node('a').converter(name='v', to_network='elec', to_node='a', max=50).build())
c = hd.Study.from_json(s.to_json())
assert json.dumps(c.to_json()) == json.dumps(s.to_json())
""", "a converter with several sources declared in non-alphabetical order, saved and loaded", "the loaded study declares sources in another order and is written differently")

seed("B11", "C11", [(O + "domain/output.py", """        self.modeler = modeler or []
        self.solver = solver or []
        self.mapper = mapper
        self.total = total

    @staticmethod
    def from_json(dict, factory=None):
        return Benchmark(**dict)
""", """        self.modeler = modeler or []
        self.solver = solver or []
        self.mapper = mapper
        self.total = max(total, mapper)

    @staticmethod
    def from_json(dict, factory=None):
        return Benchmark(
            modeler=[round(e, 6) for e in dict["modeler"]],
            solver=dict["solver"],
            mapper=dict["mapper"],
            total=dict["total"],
        )
""")], """
s = hd.Study(horizon=2).network().node('a').production(name='p', cost=1, quantity=1).build()
from hadar.optimizer.domain.output import Result
r = hd.LPOptimizer().solve(s)
assert json.dumps(Result.from_json(r.to_json()).to_json()) == json.dumps(r.to_json())
""", "timings finer than a microsecond (any solved result)", "timings change when a result is saved and loaded")

seed("B12", "C12", [(O + "remote/optimizer.py", """        resp = requests.get(
            url="%s/api/v1/result/%s" % (url, id), params={"token": token}
        )
        check_code(resp.status_code)
        resp = resp.json()
""", """        resp = requests.get(
            url="%s/api/v1/result/%s" % (url, id), params={"token": token}
        )
        if spinner is None:  # job is not found only while it is waiting
            check_code(resp.status_code)
        resp = resp.json()
""")], """
import threading
from http.server import BaseHTTPRequestHandler, HTTPServer
script = [(200, {'job': 1, 'status': 'QUEUED', 'progress': 1}), (200, {'job': 1, 'status': 'COMPUTING', 'progress': 0}), (500, {'job': 1, 'status': 'QUEUED', 'progress': 0}), (404, {'job': 1, 'status': 'ERROR', 'message': 'late', 'progress': 0})]
class H(BaseHTTPRequestHandler):
    def log_message(self, *a): pass
    def go(self):
        n = int(self.headers.get('Content-Length') or 0)
        self.rfile.read(n)
        code, doc = script.pop(0)
        b = json.dumps(doc).encode()
        self.send_response(code); self.send_header('Content-Length', str(len(b))); self.end_headers(); self.wfile.write(b)
    do_GET = do_POST = go
srv = HTTPServer(('127.0.0.1', 0), H)
threading.Thread(target=srv.serve_forever, daemon=True).start()
s = hd.Study(horizon=1).network().node('a').production(name='p', cost=1, quantity=1).build()
try:
    hd.RemoteOptimizer(url='http://127.0.0.1:%d' % srv.server_address[1]).solve(s)
except IOError:
    sys.exit(0)
raise SystemExit('no IOError')
""", "the server failing (HTTP 500) after the job started computing", "an HTTP error during computation is not reported")
