"""Remote optimizer against a scripted HTTP server on the loopback interface."""
import json
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from urllib.parse import parse_qs, urlsplit

import hadar as hd
import numpy as np
from hadar.optimizer.remote.optimizer import ServerError
from hypothesis import strategies as st
from vlib import boot
from vlib.core import Sub, Violation, describe, expect, reading, rejects, sut
from vlib.gen import study_spec, wchoice
from vlib.model import Plan, build, read_study, same_content, spec_content
from vlib.synth import Figures
from checks.c11 import same_plan

ASSUMPTIONS = ["the server speaks the documented protocol (POST study, GET result by job); waiting between polls is cut to zero"]

_server = None


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def log_message(self, *a):
        pass

    def answer(self, method):
        body = b""
        if method == "POST":
            body = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        srv = self.server
        srv.seen.append((method, self.path, body))
        code, data = srv.script[srv.pos] if srv.pos < len(srv.script) else (410, b"{}")
        srv.pos += 1
        self.send_response(code)
        self.send_header("Content-Length", str(len(data)))
        self.send_header("Content-Type", "application/json")
        self.end_headers()
        self.wfile.write(data)

    def do_POST(self):
        self.answer("POST")

    def do_GET(self):
        self.answer("GET")


class Server(ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64


def server():
    global _server
    if _server is None:
        _server = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=_server.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()
    return _server


def decide(case, rec):
    spec = case["study"]
    fig = Figures(spec, case["figures"])
    study = sut("building a valid study", build, hd, spec)
    job = case["job"]
    history = [case["post"]] + case["polls"]
    final = case["final"]
    script, polls_expected = [], 0

    def doc(status, extra):
        d = {"job": job, "status": status}
        d.update(extra)
        return json.dumps(d).encode()

    def final_answer():
        if final["kind"] == "TERMINATED":
            return 200, doc("TERMINATED", {"result": fig.result(spec).to_json(), "progress": 0})
        if final["kind"] == "ERROR":
            return 200, doc("ERROR", {"message": final["message"], "progress": 0})
        return final["code"], doc("QUEUED", {"progress": 1})  # an error code always wins over the body

    for s in history:
        script.append((200, doc(s["status"], {"progress": s["progress"]})))
    if case["at_post"] and final["kind"] != "TERMINATED":
        script = [final_answer()]
    else:
        script.append(final_answer())
    srv = server()
    srv.script, srv.pos, srv.seen = script, 0, []
    url = "http://127.0.0.1:%d%s" % (srv.server_address[1], case["prefix"])
    opt = hd.RemoteOptimizer(url=url) if case["token"] is None else hd.RemoteOptimizer(url=url, token=case["token"])
    hd.RemoteOptimizer(url="http://127.0.0.1:9/elsewhere", token="another")  # somebody else's, never used
    boot.FAST_SLEEP = True
    out = err = None
    try:
        out = opt.solve(study)
    except Exception as e:
        err = e
    finally:
        boot.FAST_SLEEP = False
    what = "history %s then %s" % ([s["status"] for s in history] if len(script) > 1 else "none", final)
    if final["kind"] == "TERMINATED":
        if err is not None:
            raise Violation("%s: %s" % (what, describe(err)))
        same_plan(Plan(spec, fig.result(spec)), Plan(spec, out), "result received")
    elif final["kind"] == "ERROR":
        expect(isinstance(err, ServerError), "%s: expected ServerError, got %s", what, err if err is None else describe(err))
        expect(final["message"] in str(err), "%s: error does not carry the server's message: %s", what, err)
    else:
        want = (OSError,) if final["code"] == 500 else (ValueError,)
        expect(isinstance(err, want), "%s: expected %s, got %s", what, want[0].__name__, err if err is None else describe(err))
    # the exchange seen by the server
    seen = srv.seen
    expect(len(seen) == len(script), "%s: %d requests, expected %d", what, len(seen), len(script))
    for i, (method, path, body) in enumerate(seen):
        u = urlsplit(path)
        q = parse_qs(u.query, keep_blank_values=True)
        token = case["token"] or ""
        expect(q.get("token") == [token], "request %d carries token %s instead of %r", i, q.get("token"), token)
        if i == 0:
            expect(method == "POST" and u.path == case["prefix"] + "/api/v1/study", "first request is %s %s", method, u.path)
            with reading("posted study"):
                sent = hd.Study.from_json(json.loads(body.decode()))
            same_content(read_study(sent), spec_content(spec), "study received by the server")
        else:
            expect(method == "GET" and u.path == case["prefix"] + "/api/v1/result/%s" % job, "poll %d is %s %s for job %s", i, method, u.path, job)
    rec.nontrivial = len(script) > 2
    rec.label(final["kind"], "code %s" % final["code"] if final["kind"] == "CODE" else None, "refused at once" if len(script) == 1 else None)


@st.composite
def cases(draw):
    spec = study_spec(draw, max_networks=2, max_nodes=3)
    progress = draw(st.sampled_from([0, 1, 3, 12]))
    state = lambda: {"status": draw(st.sampled_from(["QUEUED", "QUEUED", "COMPUTING", "COMPUTING"])), "progress": draw(st.integers(0, max(progress, 1)))}
    kind = wchoice(draw, (5, "TERMINATED"), (2, "ERROR"), (3, "CODE"))
    polls = [state() for _ in range(draw(st.integers(0, 8)))]
    if draw(st.integers(0, 39)) == 39:  # a long job
        polls += [state()] * draw(st.sampled_from([15, 60, 150]))
    if draw(st.integers(0, 3)):  # usual order: queued first, computing after
        polls.sort(key=lambda s: s["status"] == "COMPUTING")
    return {
        "study": spec, "figures": draw(st.integers(0, 10 ** 6)), "job": draw(st.sampled_from([123, 1, 98765432, "job-7", "b1f0", 0, "0", "last", "None"])),
        "post": {"status": draw(st.sampled_from(["QUEUED", "QUEUED", "COMPUTING"])), "progress": progress},
        "polls": polls,
        "final": {"kind": kind, "code": draw(st.sampled_from([404, 403, 500])), "message": draw(st.sampled_from(["solver crashed", "no space left", "é!", "x", "", "0", "100 %s done"]))},
        "at_post": draw(st.integers(0, 3)) == 3, "prefix": draw(st.sampled_from(["", "", "/hadar", "/a/b"])),
        "token": draw(st.sampled_from([None, "", "secret", "a b&c=d", "é/?#", "none", "0"])),
    }


SUBS = [Sub("exchange", cases, decide, 3000, rule="at least one poll before the final answer")]
