"""Writes known_findings.json (run by hand)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()}
MAP = [
    ("C08", "integer and 32-bit arrays are accepted", "figures given as integer or 32-bit arrays crashed the solver"),
    ("C03", "only the first storage of a node", "second and later storages of a node were not bound to their previous level: free energy"),
    ("C05", "an infeasible study silently", "an infeasible study returned figures of no feasible plan"),
    ("C01", "a link from a node to itself", "a link from a node to itself created energy"),
    ("C13", "analyzer kept only the last storage", "storage table held only the last storage of the study"),
    ("C13", "analyzer destination converters were sized", "from_converter table sized by number of sources: wrong rows"),
    ("C13", "analyzer mixed up sources of converters", "to_converter table mixed the sources of converters up"),
    ("C13", "analyzer time and scenario slices", "slices with an open or empty range crashed or selected wrong rows"),
    ("C13", "analyzer query with one element on each level", "query with one element on each level raised IndexError"),
    ("C16", "a partial analyzer query could not be reused", "finishing a partial query twice gave different answers"),
    ("C13", "converter queries raised KeyError", "converter queries raised KeyError on a study without converter"),
    ("C09", "study accepted arrays holding some negative", "tables with some negative or out-of-range cells were accepted"),
    ("C09", "selecting another node re-pointed", "elements added through an earlier node selector landed on the last selected node"),
    ("C09", "fluent api lost its network after adding a converter", "after converter() the selector had lost its network"),
    ("C09", "a refused converter call left", "a refused converter or to_converter call left a half-built converter"),
    ("C11", "reading a result from json rewrote", "Result.from_json rewrote the dictionary given; a second read crashed"),
    ("C17", "focus stages lost data", "per-scenario stages lost data with a custom time index or an extra column"),
    ("C18", "linking a stage in a pipeline rewrote", "linking rewrote the plug of the stage"),
    ("C18", "adding a stage to a pipeline modified", "pipeline + stage modified the pipeline"),
    ("C21", "running a stage rewrote the columns", "running a stage rewrote the columns of the caller's dataframe"),
    ("C19", "fault stage ignored seed 0", "seed 0 was ignored"),
    ("C19", "fault stage never reached its maximal downtime", "the maximal downtime was never drawn; equal bounds raised ValueError"),
    ("C17", "repeating scenarios mislabelled", "repeated scenarios were mislabelled and the time index lost"),
    ("C20", "add_pipeline did not return", "add_pipeline returned None instead of the shuffler as documented"),
    ("C20", "shuffler kept a column with an empty name", "a column with an empty name was drawn as a scenario"),
    ("C20", "shuffler drew the same scenarios", "every raw timeline drew the same scenarios"),
    ("C23", "RAC matrix with no positive", "rac_matrix() raised ValueError when no scenario and step had a positive (or negative) remaining capacity"),
    ("C22", "gaussian of converters", "gaussian(scn) of a converter plotted all scenarios (or crashed) instead of the one asked"),
    ("C05", "a plan of zeros was returned", "with high costs rounding made the solver report an abnormal status; a plan of zeros costing nothing was returned"),
    ("C08", "refuse figures whose cells", "tables of text, dates or None were accepted as costs or raised TypeError, arrays without dimension raised IndexError"),
    ("C08", "refuse a numerical value made", "a figure taken from a study of another size was accepted"),
]
fixed, used = [], set()
for pid, start, what in MAP:
    hit = [s for s in log if s.startswith("fix: " + start)]
    if not hit:
        print("no commit for", start)
        continue
    used.add(hit[0])
    fixed.append("fixed: property=%s %s %s" % (pid, log[hit[0]][:10], what))
for s in log:
    if s.startswith("fix:") and s not in used:
        print("UNRECORDED", s)
S = {"f": "scalar"}
study = {"horizon": 1, "nb_scn": 1, "networks": [{"name": "default", "links": [], "nodes": [
    {"name": "a::b", "consumptions": [], "productions": [{"name": "p", "cost": {"f": "scalar", "v": 1}, "quantity": {"f": "scalar", "v": 10}}], "storages": []},
    {"name": "c", "consumptions": [{"name": "l", "cost": {"f": "scalar", "v": 100}, "quantity": {"f": "scalar", "v": 5}}], "productions": [], "storages": []}]}],
    "converters": [{"name": "v", "to_network": "default", "to_node": "c", "max": {"f": "scalar", "v": 10}, "cost": {"f": "scalar", "v": 0},
                    "src": [{"network": "default", "node": "a::b", "ratio": {"f": "scalar", "v": 1}}]}]}
w = "a converter source whose network or node name contains '::' (here node 'a::b') "
open_ = [
    {"property": "C01", "sub": "balance", "case": study, "what": w + "makes solve raise KeyError"},
    {"property": "C10", "sub": "content", "case": {"study": study, "how": "text", "times": 1}, "what": w + "is read back from a study's JSON as another source"},
    {"property": "C11", "sub": "synthetic", "case": {"study": study, "figures": 3, "bench": [], "how": "text", "times": 1}, "what": w + "is read back from a result's JSON as another source"},
]
json.dump({"fixed": fixed, "open": open_}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
