import copy
import json

import hadar as hd
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, canon, expect, reading, sut
from vlib.gen import studies, study_spec, wchoice
from vlib.model import Dense, Plan, build, plan_cost, read_study, require_elements, same_content, spec_content
from vlib.synth import KINDS, Figures
from checks.c06 import tol_of
from checks.optim import shape_labels

ASSUMPTIONS = ["network and node names do not contain '::' (see known_findings.json)"]


def trip(study, how):
    j = sut("to_json", study.to_json)
    if how == "text":
        txt = sut("json.dumps(to_json())", json.dumps, j)
        j = json.loads(txt)
    keep = copy.deepcopy(j)
    back = sut("from_json", hd.Study.from_json, j)
    expect(j == keep, "from_json modified the dictionary it was given")
    return j, back


def content(case, rec):
    spec = case["study"]
    study = sut("building a valid study", build, hd, spec)
    want = spec_content(spec)
    expect(sut("to_json", study.to_json).get("version") == hd.__version__, "a new study is not written under the current version %s", hd.__version__)
    if case.get("version") is not None:  # a document written by another version
        doc = sut("to_json", study.to_json)
        doc["version"] = case["version"]
        study = sut("from_json", hd.Study.from_json, doc)
        expect(study.version == case["version"], "document of version %s read as version %s", case["version"], study.version)
    for i in range(case["times"]):
        j, back = trip(study, case["how"])
        same_content(read_study(back), want, "study read back (trip %d)" % (i + 1))
        expect(back.version == study.version, "version %s became %s", study.version, back.version)
        expect(canon(sut("to_json", back.to_json)) == canon(j), "serializing again gives another document")
        same_content(read_study(study), want, "original study after the trip")
        if case["how"] == "dict":  # the two studies are apart
            j2 = sut("to_json", study.to_json)
            expect(canon(j2) == canon(j), "serializing twice gives two documents")
        study = back
    # the copy is a live study: it can be extended
    sel = sut("extending the copy", lambda: study.network(spec["networks"][0]["name"]).node("added later"))
    sut("extending the copy", sel.production, name="p", cost=[1.0] * spec["horizon"], quantity=1)
    rec.nontrivial = len(spec["converters"]) > 0 or any(nd["storages"] for net in spec["networks"] for nd in net["nodes"])
    shape_labels(spec, rec)


def behaves(spec, rec):
    """Optimizer and analyzer cannot tell the copy from the original."""
    study = sut("building a valid study", build, hd, spec)
    _, back = trip(study, "text")
    d = Dense(spec)
    opt = hd.LPOptimizer()
    r1, r2 = sut("solve", opt.solve, study), sut("solve of the copy", opt.solve, back)
    p1, p2 = Plan(spec, r1), Plan(spec, r2)
    require_elements(d, p2)
    a, b = plan_cost(d, p1), plan_cost(d, p2)
    expect(abs(a.sum(axis=1) - b.sum(axis=1)).max() <= tol_of(d), "cost %s, but %s for the copy", a.sum(axis=1), b.sum(axis=1))
    a1, a2 = sut("ResultAnalyzer", hd.ResultAnalyzer, study, r1), sut("ResultAnalyzer on the copy", hd.ResultAnalyzer, back, r1)
    x, y = sut("get_cost", a1.get_cost), sut("get_cost", a2.get_cost)
    expect(np.allclose(x, y, rtol=1e-9, atol=1e-9), "analyzer costs differ: %s and %s", x, y)
    rec.nontrivial = bool(a.any())
    shape_labels(spec, rec)


@st.composite
def cases(draw):
    return {"study": study_spec(draw, big=True), "how": draw(st.sampled_from(["text", "dict"])), "times": draw(st.integers(1, 2)),
            "version": draw(st.sampled_from([None, None, None, "0.4.0", "1.0.0-beta"]))}


SUBS = [
    Sub("content", cases, content, 3000, rule="the study has a storage or a converter"),
    Sub("behaves", lambda: studies(max_networks=2, max_nodes=3), behaves, 700, rule="cost is not zero"),
]
