"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the texts below)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "hadar/optimizer/"
LP, MAP, INP, OUT, NUM = O + "lp/optimizer.py", O + "lp/mapper.py", O + "domain/input.py", O + "domain/output.py", O + "domain/numeric.py"
DOM, REM, UT = O + "lp/domain.py", O + "remote/optimizer.py", O + "utils.py"
AN, PIPE, SHUF = "hadar/analyzer/result.py", "hadar/workflow/pipeline.py", "hadar/workflow/shuffler.py"
VA, VH = "hadar/viewer/abc.py", "hadar/viewer/html.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                  observe=list(observe)))


SOLVE_TEXT = "every valid study: any number of networks, nodes, elements of each kind, links, converters, scenarios, steps, and any input form for each figure"
SOLVE_WHY = "tests solve about a dozen hand-made studies with one or two nodes, mostly one scenario and constant figures"

prop("C01", "A solved study balances energy at every node, step and scenario",
     "In the plan returned for any study, at every node of every network, at every time step of every scenario, what comes in (productions used, storage "
     "discharge, incoming links, output of converters delivering there) equals what goes out (consumption given, storage charge, outgoing links, input "
     "of converters taking there).",
     ["inputs", "configurations"], SOLVE_TEXT, SOLVE_WHY, [LP, MAP],
     [("AdequacyBuilder", LP + ":117"), ("OutputMapper", MAP + ":166")],
     "property-based testing: random studies solved through the public API, balance recomputed from the returned plan",
     "Generated studies up to 3 networks x 4 nodes, 24 steps, 11 scenarios; residual recomputed independently from the returned figures, tolerance 1e-6 of the "
     "largest quantity. Not exhaustive.", ["LPOptimizer().solve(study)"])

prop("C02", "A solved study respects every capacity, demand, storage and converter limit",
     "In the plan returned for any study every figure is non-negative and within the limit given for its own element, scenario and time step: consumption given <= asked, production "
     "used <= available, link flow <= capacity, storage level, charge and discharge <= their limits, converter output <= its maximum.",
     ["inputs", "configurations"], SOLVE_TEXT, SOLVE_WHY + "; limits that vary by scenario and step are rarely binding there", [MAP, LP, NUM],
     [("InputMapper variable bounds", MAP + ":27"), ("StorageBuilder", LP + ":287"), ("ConverterMixBuilder", LP + ":322")],
     "property-based testing: random studies, limits recomputed from the input", "Limits recomputed from the generated input, not from the study object; a case counts only when "
     "some limit binds.", ["LPOptimizer().solve(study)"])

prop("C03", "Storage levels follow their charges, discharges and efficiency in time",
     "For every storage of any solved study, the level at the end of each step equals the level before (the initial level at the first step) plus efficiency times "
     "charge minus discharge of that step, in every scenario and for every storage of a node.",
     ["inputs", "histories"], "every study with storages, every step of the horizon in order, every scenario", "tests have at most one storage per node over 3-4 steps and one scenario",
     [LP, MAP], [("StorageBuilder", LP + ":287")], "property-based testing: storage-rich random studies, level recurrence recomputed",
     "Recurrence recomputed step by step from the returned figures and the generated efficiencies.", ["LPOptimizer().solve(study)"])

prop("C04", "Converters take each input in proportion of their output",
     "For every converter of any solved study, every scenario and step, and every one of its sources, the input taken at that source times the source's own ratio equals the output delivered, "
     "and the output does not exceed the converter's maximum.",
     ["inputs", "configurations"], "every study with converters: several sources, several converters, ratios varying by scenario and step", "tests use one or two fixed converters with constant ratios",
     [LP, MAP, DOM], [("ConverterMixBuilder", LP + ":322"), ("InputMapper.get_conv_var", MAP + ":132")],
     "property-based testing: converter-rich random studies, ratio relation recomputed", "Relation recomputed from returned flows and generated ratios.", ["LPOptimizer().solve(study)"])

prop("C05", "The plan found is a cheapest one, and no plan is invented when none exists",
     "For every study and scenario the returned plan's cost (unserved consumption, production, stored level, exchanges and converter output, each times its own cost at that scenario and step) equals the minimum over all "
     "feasible plans. When some scenario has no feasible plan (a storage that cannot hold or release what it must) solving raises an error instead of returning a result, and it never raises when all scenarios have a plan.",
     ["inputs", "configurations"], SOLVE_TEXT + ", feasible or not", "tests compare a handful of optimal plans worked out by hand; none is infeasible",
     [LP, MAP], [("ObjectiveBuilder", LP + ":33"), ("_solve_batch status handling", LP + ":350")],
     "property-based testing, differential against an independent reference formulation of the documented linear program",
     "The minimum comes from an independently written dense formulation solved by the same LP solver library (trusted) through another model; equality within 1e-7 of the money at stake.",
     ["LPOptimizer().solve(study)"])

prop("C06", "Scenarios, declaration order, names and reuse do not influence the cost found",
     "Each scenario's optimal cost is that of the scenario alone: it does not change with the other scenarios, their number or order, with the order in which elements are declared, or with names of networks, nodes and elements; without storage the same holds for time steps. "
     "Solving leaves the study unchanged, and solving again, before or after other studies, after extending the study, and however scenarios are spread over worker processes, gives the same cost as solving it for the first time.",
     ["inputs", "schedules", "histories"], "every study, every permutation or subset of its scenarios, declaration orders, renamings, and distributions of batches over workers", "needs relating two runs; tests look at single runs",
     [LP, MAP, O + "optimizer.py"], [("solve_lp batches", LP + ":441"), ("_solve_batch", LP + ":350")],
     "metamorphic property-based testing over scenario subsets, permutations, renamings, repeated solves and pool schedules",
     "Costs compared, not plans (several optimal plans may exist). The process pool is replaced by a deterministic stand-in with the same visible behaviour, plus cases with the real pool.", ["LPOptimizer().solve(study)"])

prop("C07", "A result mirrors the study element by element",
     "The result of any study has exactly the study's networks, nodes, consumptions, productions, storages, links, converters and converter sources, under the same names and in declaration order. Each figure is a finite table of (scenarios x steps), no two elements share their memory, and timings hold one modelling and one solving time per scenario, none longer than the call itself; solving other studies later changes nothing in it.",
     ["inputs", "configurations"], SOLVE_TEXT, "tests compare results of small studies where order and names cannot be confused",
     [MAP, OUT], [("OutputMapper", MAP + ":166")], "property-based testing: structural comparison of result and generated study", "Pure structure; figures themselves are decided by C01-C05.", ["LPOptimizer().solve(study)"])

prop("C08", "Every accepted form of a figure means the same table; anything else is refused",
     "A figure given as a number, a row of steps, a column of scenarios or a full table, as list, array (integer or float of any width), Series or DataFrame, means the table obtained by repeating it over the missing axis: reading the study at any scenario and step, solving and analysing give the same as with the full table. A value of any other shape or type, or a table holding anything but numbers, is refused with ValueError and leaves the study unchanged.",
     ["inputs"], "every figure of every element kind, every form, container and shape, every horizon and number of scenarios (including equal or 1)", "tests try each form once, on one element, with 1 or 2 scenarios",
     [NUM, INP], [("NumericalValueFactory", NUM), ("ScalarNumericalValue, RowNumericValue, ColumnNumericValue, MatrixNumericalValue", NUM)],
     "property-based testing, differential between input forms and against the documented expansion", "Scalars are python int/float; NaN and zero-dimensional arrays are outside the domain.", ["Study fluent api", "Study.to_json", "LPOptimizer().solve"])

prop("C09", "After any sequence of building calls a study holds exactly what was accepted",
     "After any sequence of calls on any of the network and node selectors obtained so far, in any order, the study contains exactly what the accepted calls described, each on the network and node its own selector stands for. Calls that are invalid (duplicate consumption, production, storage, link, converter or converter source, unknown node or network as link end or converter destination, negative or out-of-range figures anywhere in a table, wrong shape) raise ValueError and leave the study exactly as before; valid calls never raise, and an argument left out takes its documented default.",
     ["histories", "inputs"], "every sequence of valid and invalid calls, also through selectors obtained earlier", "tests build straight-line studies and try each error once, never looking at what is left afterwards",
     [INP], [("Study add_* guards", INP), ("NetworkFluentAPISelector, NodeFluentAPISelector", INP)],
     "stateful model-based testing of the fluent api", "Histories of up to ~25 calls compared after each call with a plain model.", ["Study fluent api"])

prop("C10", "Studies survive serialization unchanged",
     "Any study written to JSON and read back (through text or not, once or twice) has the same horizon, scenarios, networks, nodes, elements, figures at every scenario and step, links, converters and version, writes the same document again, and gives the same costs when solved or analysed. Writing does not change the study and reading does not change the document.",
     ["inputs"], "every study, all element kinds, all input forms", "tests round-trip one fixed study",
     [INP, NUM, UT], [("JSON.convert / to_json / from_json", UT + ":37")], "property-based testing: round trip and differential behaviour of the copy",
     "Network and node names containing '::' are excluded (known finding).", ["Study.to_json", "Study.from_json"])

prop("C11", "Results survive serialization unchanged",
     "Any result (solved or constructed) written to JSON and read back has the same elements in the same order, the same figures, converter flows and timings, writes the same document again, and gives the same analyzer tables. Writing does not change the result, reading does not change the document, which can be read again.",
     ["inputs"], "every result over every study shape", "tests round-trip one fixed result",
     [OUT, UT], [("OutputConverter.to_json/from_json", OUT), ("Result.from_json", OUT)], "property-based testing: round trip", "Synthetic results with distinct figures plus solved ones.", ["Result.to_json", "Result.from_json"])

prop("C12", "The remote optimizer follows the job to its end and reports it faithfully",
     "For every sequence of server answers, the remote optimizer posts the study once with the token, then polls that job with the token until it ends. It returns exactly the server's result if the job terminates, raises a server error carrying the server's message if the job fails, ValueError on 404 or 403 and IOError on 500 at any exchange, and issues no further request.",
     ["histories", "fault_sequences"], "every history of queued/computing states of any length followed by success, failure or an HTTP error at the post or any poll; any token, job id and url prefix", "tests mock one successful exchange and three error codes on the first request",
     [REM], [("_solve_remote_wrap", REM), ("check_code", REM)], "property-based testing with a scripted HTTP server (fault sequences)", "Real HTTP over loopback; time between polls is cut.", ["RemoteOptimizer(url, token).solve(study)"])

prop("C13", "Analyzer queries return exactly the selected rows with the right figures",
     "For every result and every query (any kind of element; network, node, element, time and scenario filters given as nothing, one value, list or slice, asked in any order) the answer has exactly the rows matching all filters, indexed in the asked order without the leading single-valued levels and sorted, and each row carries the figures the study and the result hold for that element, scenario and step.",
     ["inputs", "configurations"], "every study and result shape, every element kind, every combination and order of filters, on one, several or all networks", "tests run about ten queries over a fixed study with one element of each kind",
     [AN], [("ResultAnalyzer._build_*", AN + ":193"), ("filter, _pivot", AN + ":494"), ("Index, IntIndex", AN + ":22")],
     "property-based testing against a reference table built from the generated figures", "Synthetic results with a distinct figure in every cell.", ["ResultAnalyzer.network().node()....scn().time()"])

prop("C14", "Reported costs are complete, additive, and equal the optimum",
     "The cost the analyzer reports for a node, a network or the whole study, per scenario and step, is the sum over its elements of unserved consumption, production used, stored level and link use times their own costs, a link counting at the node it leaves and a converter's output at the node it delivers to; networks are the sum of their nodes and the study the sum of its networks. On a solved study the total per scenario is the minimum cost.",
     ["inputs", "configurations"], "every study and result, every node and network, alone or together", "tests check one study with constant figures",
     [AN], [("ResultAnalyzer.get_cost", AN + ":634")], "property-based testing against the documented formula and against the reference optimum", "Independent formula on synthetic results; reference LP on solved ones.", ["ResultAnalyzer.get_cost"])

prop("C15", "Balances, remaining capacity and element counts match the elements",
     "For every result the analyzer's exchange balance of a node is its exports minus its imports over links, its remaining available capacity of a network is the unused production minus the unserved consumption of that network, its element counts for a node, network or study are those of the study, and nodes are listed in declaration order; all per scenario and step and restricted to the network asked.",
     ["inputs", "configurations"], "every study and result shape, with networks sharing node names, nodes without links, networks without production or consumption", "tests check two-node studies",
     [AN], [("get_balance", AN + ":609"), ("get_rac", AN + ":697"), ("get_elements_inside", AN + ":566")], "property-based testing against direct aggregation of generated figures", "Synthetic results.", ["ResultAnalyzer.get_balance/get_rac/get_elements_inside/nodes"])

prop("C16", "Analysing never changes anything: answers do not depend on earlier questions",
     "Whatever was asked before, and whatever the caller did with earlier answers, every analyzer answer equals the one a fresh analyzer gives. A partial query can be finished several times in different ways, each time giving the same as asked at once, and neither study nor result is modified.",
     ["histories"], "every sequence of queries, partial queries branched, aggregates, with answers overwritten by the caller", "tests ask one question per analyzer",
     [AN], [("NetworkFluentAPISelector._append", AN + ":770"), ("filter copies", AN + ":531")], "stateful testing, differential against a fresh analyzer", "Histories of 2-8 calls.", ["ResultAnalyzer"])

prop("C17", "A pipeline computes what its stages compute one after the other",
     "For every timeline (one or several scenarios, any column order and time index) and every chain of stages that can be linked, running the pipeline gives what running its stages one by one gives, with time index, scenarios and untouched columns preserved. Clip, rename, drop, repeat and user-written stages (whole timeline or per scenario) each do exactly what they are documented to do, in every scenario.",
     ["inputs", "programs"], "every table and every composition of built-in and user stages, built in each of the three ways", "tests run each stage alone on one small frame",
     [PIPE], [("Pipeline.__call__", PIPE + ":201"), ("FocusStage._process_timeline", PIPE + ":376"), ("Stage.standardize_column", PIPE + ":300")],
     "property-based testing against a plain reference interpreter of pipelines", "Random faults are switched off here (C19 decides them).", ["Pipeline(...)(df)", "stage(df)"])

prop("C18", "Stages link exactly when their columns fit, and linking disturbs nothing",
     "Two stages can be linked exactly when every column the second needs is announced by what comes before (stages that accept anything always fit); otherwise ValueError is raised. The pipeline then announces the first need and the accumulated outputs, accepts data exactly when the needed columns are there, and is accepted by a shuffler exactly when it ends with the shuffler column; neither linking, extending, refusing nor running changes any stage, or the pipeline extended.",
     ["programs", "histories"], "every sequence of input and output column sets, free stages included", "tests try two or three pairs",
     [PIPE, SHUF], [("FreePlug, RestrictedPlug", PIPE + ":75"), ("Pipeline.__add__", PIPE + ":183")], "property-based testing against the documented plug arithmetic", "Column names within a plug are distinct.", ["Stage + Stage", "Pipeline([...])", "plug", "Shuffler.add_pipeline"])

prop("C19", "Random faults have the size, length and frequency asked for",
     "For every parameter and draw the fault stage only lowers the quantity column, by whole multiples of the loss, in stretches no shorter than the minimal downtime unless cut by the horizon, leaving other columns and the time index alone; no fault occurs at frequency 0. Durations spread over the whole range from minimal to maximal downtime, faults occur at the asked frequency over the whole horizon, the same seed gives the same faults again and no seed gives different faults at each scenario and run.",
     ["inputs", "configurations"], "every loss, frequency, downtime range, seed, timeline and random draw", "tests check one seeded draw",
     [PIPE], [("Fault._process_scenarios", PIPE + ":510")], "property-based testing: invariants on every draw and 10-sigma statistics on long horizons", "Statistical part detects biases larger than about 10 standard deviations on thousands of steps.", ["Fault(...)(df)"])

prop("C20", "Shuffled scenarios are genuine rows, drawn as the sampler says, independently",
     "Whatever the number, kind and names of sources, the schedule of the worker pool and the number of scenarios asked, shuffling returns for each source exactly that many rows, each being one complete scenario of that source (the raw row, or the output of its pipeline), the rows a given sampler picks, in order. By default every scenario can be drawn evenly, different sources and successive shuffles are drawn independently, and data given is not modified.",
     ["inputs", "schedules"], "every set of raw and pipeline sources, sampler, number of draws, worker schedule, earlier random seed", "tests shuffle with a mocked sampler and one source of each kind",
     [SHUF], [("Timeline.sample", SHUF + ":40"), ("Shuffler.shuffle", SHUF + ":149")], "property-based testing over pool schedules; statistical independence test", "Pool stand-in with per-worker random state and pickling, plus cases with the real process pool.", ["Shuffler.shuffle"])

prop("C21", "Workflow objects and data can be reused in any order without interference",
     "In any history of running stages, linking them into pipelines, extending pipelines and shuffling on shared stages, pipelines and timelines, every run gives what the same chain gives on fresh objects with the timeline as it is then, and the timelines given (values, columns, index) are never modified, even when the caller or a stage overwrites an answer or its argument.",
     ["histories"], "every sequence of run, link, extend and shuffle operations over shared objects, timelines changed by their owner in between", "tests use every object once",
     [PIPE, SHUF], [("Stage.__call__ copy", PIPE + ":278"), ("Pipeline.__init__", PIPE + ":163")], "stateful model-based testing over shared stages, pipelines and data", "Deterministic stages.", ["Stage", "Pipeline", "Shuffler"])


exec(open(os.path.join(HERE, "tools", "viewer_props.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "viewer_props.py")) else None

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"],
                                                    "hook_needed": None}}, ensure_ascii=False) + "\n")
json.dump({
    "version": 1, "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": "bash run.sh %s" % p["id"], "thorough_cmd": "bash run.sh %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
    "not_applicable": [],
    "notes": "No hooks are needed in /repo: every check drives the public api. See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
