prop("C22", "Charts of an element show exactly that element's figures",
     "For every result and every consumption, production, storage, link and converter end, each chart (timeline, sorted, bell, candles) shows exactly the figures of that element, network, scenario or step and of the asked kind: one curve per scenario in time order, values sorted from largest to smallest, points told passed or failed by the remaining capacity of the network, storage levels before and after each step. "
     "The same data reaches a user's own drawing backend; asking both a step and a scenario, or giving only one end of the time range, is refused; drawing changes nothing.",
     ["inputs", "configurations"], "every study and result shape, element, kind of figure, scenario, step and time axis", "tests compare hashes of a few figures of one study, without converters in scenario mode",
     [VA, VH], [("*FluentAPISelector", VA + ":106"), ("HTMLElementPlotting", VH + ":21")],
     "property-based testing: data read back from the figures and from a recording backend against generated figures", "Colours, titles and layout are not looked at.", ["HTMLPlotting(agg).network().node().<element>().<chart>()"])

prop("C23", "Node stacks, exchange maps and capacity matrices show the right quantities",
     "For every result and scenario, the stack of a node shows as areas its productions, storage discharges, converter outputs and net imports, and as lines its consumptions, storage charges, converter inputs and net exports, each with its own figures (productions, storages, consumptions dearest first). "
     "The map of a network shows each node's exchange balance and, for each pair of linked nodes, one arrow in the direction of the net exchange with its quantity; the remaining capacity matrix shows the network's remaining capacity for every scenario and step, whether all, some or no step fails.",
     ["inputs", "configurations"], "every study and result shape, network, node, scenario, step and kind of figure, links in one or both directions, networks without exchange", "tests compare hashes of one map, one matrix and one stack",
     [VA, VH], [("NodeFluentAPISelector.stack", VA + ":795"), ("NetworkFluentAPISelector.map", VA + ":1010"), ("HTMLElementPlotting.stack, matrix, map_exchange", VH + ":183")],
     "property-based testing: data read back from the figures and from a recording backend against generated figures", "Order inside a kind is only decided when costs are constant in time and distinct.", ["HTMLPlotting(agg).network().map/rac_matrix", "HTMLPlotting(agg).network().node().stack"])

prop("C24", "The optimum reacts to changes of the study as an economic optimum must",
     "For every study: multiplying all quantities, or all costs, by a factor multiplies the minimum cost by it; splitting an element in two shares, routing a link through an intermediate node or a one-to-one converter, or gathering networks into one, keeps the cost; elements without capacity change nothing and disconnected parts add their own minimum. "
     "Enlarging any limit never raises the cost, one more unit of demand costs at most its price, and raising one price changes the cost by an amount between its use after and its use before; other scenarios keep their cost.",
     ["inputs", "programs"], "every study, and every change of that kind applied to any of its elements, scenarios and steps", "tests solve isolated studies and never relate two of them",
     [O + "lp/optimizer.py", O + "lp/mapper.py"], [("objective and constraints", O + "lp/optimizer.py:35"), ("variables", O + "lp/mapper.py:35")],
     "metamorphic property-based testing: two related studies solved, plus the reference optimum of each", "Studies known to have a plan.", ["LPOptimizer().solve", "Result"])

prop("C25", "From raw data to costs: the whole chain keeps every scenario intact",
     "When quantities of a study come from the shuffler (raw data or pipelines), then whichever way the study is solved (at once, after saving and reloading study and result, or by a server), the analyzer shows in each scenario, for each such element, exactly the source scenario that was drawn and the planned use of it, and the cost it reports for a scenario is the minimum for that very combination of draws.",
     ["inputs", "schedules", "configurations"], "every set of sources, pipelines, draws, worker schedules, studies and ways of solving", "tests exercise each part alone, on mocked or constant data",
     [SHUF, PIPE, O + "optimizer.py", O + "domain/input.py", AN], [("Shuffler.shuffle", SHUF + ":149"), ("LPOptimizer, RemoteOptimizer", O + "optimizer.py:29"), ("ResultAnalyzer", AN + ":366")],
     "property-based testing of the composed system against genuine rows and the reference optimum", "The server is a loopback stand-in which solves the study it receives.", ["Shuffler", "Study", "LPOptimizer/RemoteOptimizer", "ResultAnalyzer"])
