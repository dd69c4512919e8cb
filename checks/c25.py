"""The whole chain: sources -> pipelines -> shuffler -> study -> solve (directly, through files, or by a server) -> analyzer."""
import copy
import json
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer

import hadar as hd
import numpy as np
from hadar.optimizer.domain.output import Result
from hypothesis import strategies as st
from vlib import boot, flow, pool
from vlib.core import Sub, expect, reading, sut
from vlib.gen import study_spec, wchoice
from vlib.model import Dense, Plan, build, cost_scale, node_residual, plan_cost, reference, require_elements
from checks.optim import shape_labels

ASSUMPTIONS = [
    "costs compared within 4e-7 of the money at stake, drawn rows within 1e-9",
    "the server of the remote route is a loopback stand-in which really solves the study it receives, after a few polls",
]


class Solving(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def log_message(self, *a):
        pass

    def reply(self, doc):
        data = json.dumps(doc).encode()
        self.send_response(200)
        self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        self.wfile.write(data)

    def do_POST(self):
        srv = self.server
        body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        srv.job += 1
        try:
            res = hd.LPOptimizer().solve(hd.Study.from_json(json.loads(body.decode())))
            srv.jobs[str(srv.job)] = [srv.polls, {"job": srv.job, "status": "TERMINATED", "result": res.to_json()}]
        except Exception as e:
            srv.jobs[str(srv.job)] = [srv.polls, {"job": srv.job, "status": "ERROR", "message": "%s: %s" % (type(e).__name__, e)}]
        self.reply({"job": srv.job, "status": "QUEUED", "progress": srv.polls})

    def do_GET(self):
        job = self.server.jobs[self.path.split("?")[0].rsplit("/", 1)[1]]
        if job[0] > 0:
            job[0] -= 1
            self.reply({"job": job[1]["job"], "status": "COMPUTING", "progress": job[0]})
        else:
            self.reply(job[1])


class Server(ThreadingHTTPServer):
    daemon_threads = True


_server = None


def server():
    global _server
    if _server is None:
        _server = Server(("127.0.0.1", 0), Solving)
        _server.job, _server.jobs = 0, {}
        threading.Thread(target=_server.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
    return _server


def elements(spec):
    """What can be driven by a source: (path, element, key)."""
    out = []
    for net in spec["networks"]:
        for nd in net["nodes"]:
            for kind in ("consumptions", "productions"):
                for e in nd[kind]:
                    out.append(((net["name"], nd["name"], kind, e["name"]), e, "quantity"))
        for l in net["links"]:
            out.append(((net["name"], l["src"], "links", l["dest"]), l, "quantity"))
    return out


def source(s, h):
    """(data frame or array, stages or None, genuine rows)"""
    if "rows" in s:
        r = np.random.RandomState(s["seed"])
        a = r.randint(0, 60, size=(s["rows"], h)) if s["ints"] else np.round(r.uniform(0, 60, size=(s["rows"], h)), 3)
        a[:, 0] = np.arange(s["rows"]) * 0.5 + a[:, 0] if not s["ints"] else np.arange(s["rows"]) + a[:, 0]
        return a, None, a.astype(float)
    t = {**s["table"], "h": h}
    stages, ref = [], flow.table(t)
    plug = None
    kinds = [x["k"] for x in s["stages"]]
    head = s["stages"][:kinds.index("to_shuffler")] if "to_shuffler" in kinds else s["stages"]
    for x in head + [{"k": "clip", "lower": 0, "upper": 80}]:
        nxt = (flow.plug_of(x),) if not stages else flow.chain(plug, flow.plug_of(x))
        stages.append(x)
        plug, ref = nxt[0], flow.apply(x, ref)
    usable = ref.names if plug is None else [n for n in plug[1] if n in ref.names]
    if not usable:
        return None
    x = {"k": "to_shuffler", "name": usable[s["pick"] % len(usable)]}
    stages.append(x)
    ref = flow.apply(x, ref)
    return flow.frame(t), stages, np.array([v for (_, n), v in ref.cols.items() if n == "to_shuffler"], dtype=float)


def decide(case, rec):
    spec = copy.deepcopy(case["study"])
    n, h = spec["nb_scn"], spec["horizon"]
    slots = elements(spec)
    sh, rows, used = hd.Shuffler(), {}, []
    for j, s in enumerate(case["sources"]):
        got = source(s, h)
        if got is None or not slots:
            continue
        data, stages, good = got
        name = "source %d" % j
        if stages is None:
            sut("add_data", sh.add_data, name=name, data=data)
        else:
            sut("add_pipeline", sh.add_pipeline, name=name, data=data, pipeline=sut("pipeline", flow.build_pipeline, [flow.make(x) for x in stages], s["how"]))
        rows[name] = good
        used.append((name, slots[s["slot"] % len(slots)]))
    with pool.schedule(case["sched"], 4):
        drawn = sut("shuffle", sh.shuffle, n) if rows else {}
    with reading("shuffle"):
        for name, good in rows.items():
            a = np.asarray(drawn[name], dtype=float)
            expect(a.shape == (n, h), "%s: shuffle gives shape %s for %d scenarios of %d steps", name, a.shape, n, h)
            for i in range(n):
                expect((np.abs(good - a[i]) <= 1e-9 * np.maximum(1, np.abs(good))).all(axis=1).any(), "%s: scenario %d drawn is not one of the source's", name, i)
    # the study takes the drawn arrays as they come; the expectation takes their figures
    given = {}
    for name, (path, e, key) in used:
        given[path] = drawn[name]
        e[key] = {"f": "mat", "c": "np", "v": np.asarray(drawn[name], dtype=float).tolist()}

    def raw_of(path, v):
        return given.get(path, v)

    study = sut("building the study from shuffled data", build_with, spec, raw_of)
    d = Dense(spec)
    route = case["route"]
    if route == "saved":
        study = sut("reloading the study", lambda: hd.Study.from_json(json.loads(json.dumps(study.to_json()))))
    if route == "remote":
        srv = server()
        srv.polls = case["polls"]
        boot.FAST_SLEEP = True
        try:
            result = sut("remote solve", hd.RemoteOptimizer(url="http://127.0.0.1:%d" % srv.server_address[1]).solve, study)
        finally:
            boot.FAST_SLEEP = False
            srv.jobs.clear()
    elif route == "real":
        with pool.real():
            result = sut("solve", hd.LPOptimizer().solve, study)
    else:
        result = sut("solve", hd.LPOptimizer().solve, study)
    if route == "saved":
        result = sut("reloading the result", lambda: Result.from_json(json.loads(json.dumps(result.to_json()))))
    plan = Plan(spec, result)
    require_elements(d, plan)
    for k, r in node_residual(d, plan).items():
        expect(np.abs(r).max() <= 10 * d.tol, "node %s is not balanced", k)
    agg = sut("ResultAnalyzer", hd.ResultAnalyzer, study, result)
    tol = 4e-7 * cost_scale(d) + 4e-6
    with reading("get_cost"):
        cost = np.asarray(sut("get_cost", agg.get_cost), dtype=float)
        expect(cost.shape == (n, h), "cost has shape %s instead of %s", cost.shape, (n, h))
        for i in range(n):
            ok, best = reference(d, i)
            if not ok:
                raise RuntimeError("infeasible study generated")
            expect(abs(cost[i].sum() - best) <= tol, "scenario %d costs %.9g, minimum for the scenarios drawn is %.9g", i, cost[i].sum(), best)
    # figures of the driven elements as the analyst sees them
    for (net, node, kind, name), a in given.items():
        want = np.asarray(a, dtype=float)
        what = "%s %s of %s/%s" % (kind[:-1], name, net, node)
        q = agg.network(net)
        for i in range(n):
            f = lambda: (q.scn(i).node(node).consumption(name).time() if kind == "consumptions" else q.scn(i).node(node).production(name).time()
                         if kind == "productions" else q.scn(i).node(node).link(name).time())
            df = sut("query of " + what, f)
            with reading(what):
                col = "asked" if kind == "consumptions" else "avail"
                got = np.asarray(df[col], dtype=float)
                expect(list(df.index) == list(range(h)), "%s, scenario %d: steps %s", what, i, list(df.index))
                expect(np.allclose(got, want[i], rtol=1e-9, atol=1e-9), "%s, scenario %d: %s is %s, %s was drawn", what, i, col, got.tolist(), want[i].tolist())
                use = np.asarray(df["given" if kind == "consumptions" else "used"], dtype=float)
                mine = {"consumptions": plan.cons, "productions": plan.prod, "links": plan.link}[kind][net, node, name][i]
                expect(np.allclose(use, mine, rtol=1e-9, atol=1e-9), "%s, scenario %d: %s shown, %s planned", what, i, use.tolist(), mine.tolist())
    for net in spec["networks"]:
        rac = np.zeros((n, h))
        for k, (_, q) in d.prod.items():
            rac += (q - plan.prod[k]) if k[0] == net["name"] else 0
        for k, (_, q) in d.cons.items():
            rac -= (q - plan.cons[k]) if k[0] == net["name"] else 0
        with reading("get_rac"):
            got = np.asarray(sut("get_rac", agg.get_rac, net["name"]), dtype=float)
            expect(got.shape == (n, h) and np.abs(got - rac).max() <= d.tol, "remaining capacity of %s is %s instead of %s", net["name"], got.tolist(), rac.tolist())
    rec.nontrivial = n > 1 and len(given) > 0 and any(len({tuple(r) for r in np.asarray(a, dtype=float).tolist()}) > 1 for a in given.values())
    rec.label("route " + route, *["drives " + k[2] for k in given], "pipeline source" if any("table" in s for s in case["sources"]) else None)
    shape_labels(spec, rec)


def build_with(spec, raw_of):
    """Same as vlib.model.build, driven quantities given as the objects the shuffler returned."""
    from vlib.model import raw

    hold = {}
    spec2 = copy.deepcopy(spec)
    for path, e, key in elements(spec2):
        v = raw_of(path, None)
        if v is not None:
            hold[id(e)] = v
    study = hd.Study(horizon=spec["horizon"], nb_scn=spec["nb_scn"])
    qty = lambda e: hold[id(e)] if id(e) in hold else raw(e["quantity"])
    for net in spec2["networks"]:
        sel = study.network(net["name"])
        for node in net["nodes"]:
            sel = sel.node(node["name"])
            for c in node["consumptions"]:
                sel = sel.consumption(name=c["name"], cost=raw(c["cost"]), quantity=qty(c))
            for p in node["productions"]:
                sel = sel.production(name=p["name"], cost=raw(p["cost"]), quantity=qty(p))
            for s in node["storages"]:
                sel = sel.storage(name=s["name"], init_capacity=s["init_capacity"], **{k: raw(s[k]) for k in ("capacity", "flow_in", "flow_out", "cost", "eff")})
        for l in net["links"]:
            sel = sel.link(src=l["src"], dest=l["dest"], cost=raw(l["cost"]), quantity=qty(l))
    for v in spec2["converters"]:
        for s in v["src"]:
            study.network(s["network"]).node(s["node"]).to_converter(name=v["name"], ratio=raw(s["ratio"]))
        study.network(v["to_network"]).converter(name=v["name"], to_network=v["to_network"], to_node=v["to_node"], max=raw(v["max"]), cost=raw(v["cost"]))
    return study.build() if hasattr(study, "build") else study


@st.composite
def cases(draw):
    n = wchoice(draw, (4, 2), (4, 3), (3, 4), (1, 1), (1, 6))
    spec = study_spec(draw, n=n, max_networks=2, max_nodes=3, neg_cost=False, scale=60, dense=True)
    srcs = []
    for _ in range(draw(st.integers(1, 4))):
        slot = draw(st.integers(0, 9))
        if draw(st.integers(0, 2)) == 0:
            srcs.append({"slot": slot, "rows": wchoice(draw, (3, 3), (3, 5), (1, 1), (1, 2)), "seed": draw(st.integers(0, 10 ** 6)), "ints": draw(st.booleans())})
        else:
            t = flow.draw_table(draw)
            srcs.append({"slot": slot, "table": t, "stages": flow.draw_pipeline(draw, t, 3), "pick": draw(st.integers(0, 5)), "how": draw(st.sampled_from(["list", "add", "iadd"]))})
    return {"study": spec, "sources": srcs, "route": wchoice(draw, (6, "direct"), (6, "saved"), (5, "remote"), (1, "real") if draw(st.integers(0, 4)) == 4 else (1, "direct")),
            "polls": draw(st.integers(0, 4)), "sched": draw(st.lists(st.integers(0, 3), min_size=0, max_size=4))}


SUBS = [Sub("chain", cases, decide, 1300, rule="several scenarios, at least one element driven by a source that varies")]
