#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe="public API of a running model (attributes, DataFrames, files) read after each phase"):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Timesteps tile the simulated period and carry correct calendar fields",
  "For every start date, end date and step (whole days, or a calendar frequency such as weeks, months or years), the simulated steps are numbered from zero, begin at the period holding the start, follow each other without gap or overlap, and end with the period holding the end. Every step reports its first day, its length in days, and the year, month, day, day of year, leap-adjusted day index (0..365, a day keeps its index in every year), week index (0..51) and leap flag of its reference day (its first day for steps of whole days, the last for calendar frequencies), and when it reaches into a year after that of its reference day, the days falling in each. Starting part-way (reset to a date) yields exactly the remaining steps, and a date outside the period is refused.",
  ["inputs", "configurations"], "All start/end dates, step lengths and frequencies; all restart dates.",
  "Tests use a handful of dates and mostly daily steps; leap years, year-crossing steps and restarts combine freely.",
  ["pywr/timestepper.py", "pywr/_core.pyx"], [("Timestepper", "pywr/timestepper.py"), ("Timestep", "pywr/_core.pyx")])
p("C02", "Every run drives all components through the lifecycle in order",
  "On every run each node, parameter and recorder is set up once before it is first used and not again while nothing changed, reset exactly once at the start of the run, then for every timestep given a before phase, the allocation, and an after phase in that order, each exactly once, and finished exactly once at the end of the run. A run that fails in the middle of a timestep propagates the error and still finishes the components that were running. Stepping by hand and running to the end go through the same phases and produce the same results.",
  ["schedules", "histories", "fault_sequences"], "All sequences of setup, reset, step, run and failing components, for all component sets.",
  "Tests check outcomes of complete runs; phase counts, orders and failures in the middle are not observed.",
  ["pywr/_model.pyx"], [("Model.run/step/setup/reset/before/after/finish", "pywr/_model.pyx"), ("Component", "pywr/_component.pyx")])
p("C03", "Components are evaluated after everything they depend on",
  "In every timestep each parameter's value is computed once, after the values of all parameters it depends on, so that a dependent always uses the current timestep's value, whatever the order in which components were created or loaded and however deep or shared the dependencies are. Before, after, reset and finish phases respect the same order, recorders included. A cyclic dependency is refused with an error and never run.",
  ["programs", "configurations"], "All dependency graphs over parameters and recorders and all creation orders.",
  "Tests contain a few short chains only; an ordering defect shows on particular graph shapes or insertion orders.",
  ["pywr/_model.pyx", "pywr/_component.pyx", "pywr/parameters/", "pywr/recorders/"], [("component graph / flatten_component_tree", "pywr/_model.pyx"), ("Component.parents/children", "pywr/_component.pyx")])
p("C04", "A rerun gives the same results as a freshly built model",
  "Running a model again, after a complete run, a partial run or an explicit reset, gives exactly the flows, volumes, parameter values and recorder values that a newly built identical model gives, from the first timestep on. The same holds after inputs were changed between runs (dates, scenarios, initial volumes, limits, costs): results depend only on the current inputs, never on the earlier run. No node, parameter or recorder carries state over a reset.",
  ["histories"], "All histories of partial runs, resets and input changes for every stateful component type.",
  "Tests normally run a model once; reruns are sampled for very few component types.",
  ["pywr/_model.pyx", "pywr/_core.pyx", "pywr/nodes.py", "pywr/parameters/", "pywr/recorders/", "pywr/domains/river.py"], [("reset methods", "all components"), ("Model.reset", "pywr/_model.pyx")])
p("C05", "Reported flows are feasible and conserve mass",
  "In every timestep and scenario the flows reported lie within each node's minimum and maximum flow for that timestep, and the flow of every node equals the water arriving from upstream and the water leaving downstream: an intermediate node passes on exactly what it receives (conversion factors aside), and a storage's net flow is inflow minus outflow. Storages never release more than the volume above their minimum nor take more than the space below their maximum in the step. When no allocation can satisfy the limits the run fails with an error instead of reporting flows.",
  ["inputs", "configurations"], "All networks, limits, scenarios and solver back ends.",
  "Tests use small fixed networks with one expected answer each, mostly on one branch of the solver set-up.",
  ["pywr/solvers/", "pywr/_core.pyx", "pywr/nodes.py"], [("solver rows/columns and commit of flows", "pywr/solvers/cython_glpk.pyx"), ("lpsolve", "pywr/solvers/cython_lpsolve.pyx")])
p("C06", "Allocations are cost optimal and independent of the solver",
  "In every timestep and scenario the reported flows have the least total cost (each node's cost times its flow, negative costs being benefits) among all allocations that satisfy the limits of that timestep, so higher priority demands and cheaper supplies are always served first. All solver back ends and all their performance options give the same optimal cost, and the same flows wherever the optimum is unique. Limits and costs used are always those of the current timestep and scenario.",
  ["inputs", "configurations"], "All networks, limits and costs, constant or varying over time and scenario, and all solver options.",
  "Tests fix one network and one expectation; agreement with the optimum needs an independent oracle for arbitrary networks.",
  ["pywr/solvers/"], [("route and edge formulations", "pywr/solvers/cython_glpk.pyx"), ("lpsolve", "pywr/solvers/cython_lpsolve.pyx")])
p("C07", "Storage volumes integrate their net flow within bounds",
  "At every timestep and in every scenario a storage's volume equals its previous volume plus net flow times the step length in days, stays within its minimum and maximum volume, and its proportional volume is volume over maximum. A run starts from the initial volume given, either absolute or as a proportion of the maximum volume at the first timestep. An aggregated storage reports the sum of its members' volumes, flows and maxima and the corresponding proportional volume.",
  ["inputs", "configurations", "histories"], "All volumes, bounds (constant or time varying), step lengths, scenario counts and run histories.",
  "Tests sample daily steps and constant bounds; rounding at the bounds, long steps and varying maxima are barely reached.",
  ["pywr/_core.pyx", "pywr/nodes.py"], [("Storage.after / _reset_storage_only", "pywr/_core.pyx"), ("AggregatedStorage", "pywr/_core.pyx")],
  [("volume", "stored volume per scenario")])
p("C08", "Virtual storages debit their nodes' factored flow and cap it",
  "While active, a virtual storage's volume falls in every timestep and scenario by the sum over its nodes (each as often as it is listed) of factor times flow times the step length in days, and rises by nothing except its documented replenishment. Its nodes can never use more in a timestep than its remaining volume above its minimum allows, and that is the only effect it has on the allocation: its volume stays within its bounds and nodes are otherwise free. An inactive virtual storage neither limits nor records any use.",
  ["inputs", "configurations"], "All node sets, factors, volumes, step lengths, scenarios and solver back ends.",
  "Tests use one or two licences with unit factors and daily steps.",
  ["pywr/_core.pyx", "pywr/nodes.py", "pywr/domains/river.py", "pywr/solvers/"], [("VirtualStorage.after", "pywr/_core.pyx"), ("virtual storage rows", "pywr/solvers/")])
p("C09", "Periodic virtual storages reset and (de)activate on schedule",
  "An annual virtual storage is replenished exactly once per year, at the first timestep on or after its reset day and month, to its maximum or (if so configured) its initial volume; a monthly one every configured number of calendar months; a seasonal one is replenished and activated at its start date and inactive from its end date until then. This holds wherever the run starts in the year, for steps of any length, for every scenario and for every rerun. Between replenishments the volume only changes by use.",
  ["inputs", "schedules", "histories"], "All reset dates, start dates, step lengths, scenario counts and reruns.",
  "Tests start on a few dates with daily or weekly steps and run once.",
  ["pywr/nodes.py"], [("AnnualVirtualStorage/SeasonalVirtualStorage/MonthlyVirtualStorage.before", "pywr/nodes.py")])
p("C10", "Rolling virtual storages return use after exactly their window",
  "The volume available in a rolling virtual storage always equals its maximum minus the factored use of its nodes during the preceding window of timesteps (window length minus one previous timesteps when planning the next), so use in any window never exceeds the maximum. Use falls out of the window exactly one window after it was made, never earlier or later. The initial volume is treated as use spread evenly over the window before the start.",
  ["inputs", "histories"], "All windows, initial volumes, factors, use histories, scenario counts and reruns.",
  "Tests follow one or two use patterns.",
  ["pywr/nodes.py"], [("RollingVirtualStorage", "pywr/nodes.py")], [("memory", "use per recent timestep and scenario")])
p("C11", "Aggregated nodes enforce shared limits and flow ratios",
  "In every timestep and scenario the weighted sum of the flows of an aggregated node's members stays within the aggregated node's minimum and maximum flow, constant or varying, and when factors are given the members' flows stand exactly in the ratio of the factors, constant or varying. Constraints of several aggregated nodes over the same or connected members hold together, with every solver back end. The aggregated node reports as its own flow the sum of its members' (weighted) flows.",
  ["inputs", "configurations"], "All member sets (including members in series or shared), factors, weights, limits and solvers.",
  "Tests use two or three parallel members.",
  ["pywr/_core.pyx", "pywr/solvers/"], [("AggregatedNode", "pywr/_core.pyx"), ("aggregated rows", "pywr/solvers/cython_glpk.pyx, cython_lpsolve.pyx")])
p("C12", "Delays and flow memories return exactly the flow of the right step",
  "A delay node or delayed-flow parameter with a delay of n timesteps (or the equal number of days) gives at each timestep exactly the flow that occurred n timesteps earlier, and the configured initial flow for the first n. Parameters that read a node's last flow, its shortfall, or a rolling mean of its flow (over timesteps or days) give exactly that quantity of the preceding timesteps, and their initial value before there is any. Each scenario keeps its own history, and a node's previous flow is always its flow in the preceding timestep, zero at the first.",
  ["inputs", "histories"], "All delays, flow histories, step lengths, scenario counts and reruns, and all node types.",
  "Tests follow a single delay on a single pattern; index wrap-around and scenario mixing need other combinations.",
  ["pywr/nodes.py", "pywr/parameters/_parameters.pyx", "pywr/_core.pyx"], [("DelayNode", "pywr/nodes.py"), ("FlowDelayParameter, RollingMeanFlowNodeParameter, FlowParameter, DeficitParameter", "pywr/parameters/_parameters.pyx")])
p("C13", "Compound nodes split, lose and divert flow as configured",
  "A link with losses passes its net flow on and loses the configured fraction of it (or of the gross flow, if so configured), a piecewise link fills its steps within each step's limit in cost order and a multi-split link additionally keeps its split ratios and named outlets, a river gauge serves its minimum residual flow at its own priority, a river split divides flow in its ratios (a further outlet need not take its share, which then goes on with the rest), and a break link passes its flow unchanged. The flow such a node reports equals what its parts carry, in every timestep and scenario. Their limits, costs, losses and factors may vary in time and are then those of the current timestep.",
  ["inputs", "configurations"], "All step counts, limits, factors, costs, losses, scenarios and solvers.",
  "Tests use a fixed example per node type.",
  ["pywr/nodes.py", "pywr/domains/river.py"], [("LossLink, PiecewiseLink, MultiSplitLink, BreakLink", "pywr/nodes.py"), ("RiverGauge, RiverSplit, RiverSplitWithGauge", "pywr/domains/river.py")])
p("C14", "Scenarios are enumerated exactly and run in isolation",
  "A model runs precisely the selected scenario combinations: the full product of all scenarios (last varying fastest), or the product of the configured slices, or the explicit list of combinations, in that order, each combination using its own member's data. Every combination gives exactly the flows, volumes, parameter values and recorder values that a model holding only that combination would give; no combination influences another. Results are labelled with the combination and ensemble names they belong to.",
  ["inputs", "configurations"], "All scenario sizes, slices, combination lists, data shapes and component types.",
  "Tests use one or two small scenarios; isolation is a relation between different runs.",
  ["pywr/_core.pyx", "pywr/core.py", "pywr/solvers/", "pywr/parameters/", "pywr/recorders/"], [("ScenarioCollection.setup/get_combinations/multiindex", "pywr/_core.pyx")])
p("C15", "Calendar profiles give the value of the right day, week or month",
  "A daily, weekly or monthly profile gives in every timestep the value belonging to the timestep's reference day (its first day for steps of whole days, its last for calendar frequencies): the same entry for the same calendar day in leap and other years, the entry of the seven-day block counted from 1 January with the last entry covering the rest of the year, or the entry of the month; interpolated monthly profiles join the values of neighbouring months by a straight line over the days between and pass through them on the first or last day as chosen, 29 February repeating the 28th. A uniform drawdown is one on its reset day and falls by the same amount with every day counted to the next (a period beginning by 29 February counts that day in every year). Scenario-indexed profiles give the row of the scenario's member, and new values given between runs are used in the next run. Profiles of the wrong size are refused.",
  ["inputs"], "All dates, leap years, step lengths, profile values and scenario shapes.",
  "Tests loop over one or two years for some profiles.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/parameters.py"], [("Daily/Weekly/MonthlyProfileParameter, ScenarioXProfileParameter, UniformDrawdownProfileParameter", "pywr/parameters/_parameters.pyx")])
p("C16", "Time series inputs are aligned with the timesteps and scenarios",
  "A time-series input gives in every timestep the value of its series for that timestep: the entry of that timestep when the frequencies agree, the mean of the entries beginning within the step when the series is finer, and when it is coarser the entry in force at the start of the step (for series of calendar periods, the mean over the step's days). Array inputs give the entry of the timestep's index, and monthly factors the factor of the timestep's month. Every input gives the column or row of the scenario member in use, also when only a slice or chosen combinations of the scenario are run, and a look-up shifted by a number of timesteps gives the value that many steps away, or the first or last one available. A series that has no value for some timestep, an array whose size does not match the scenario, or a stored table that is too short is refused with an error.",
  ["inputs", "configurations"], "All series spans, frequencies, timesteps, scenario sizes and slices.",
  "Tests cover selected alignments; off-by-one days and scenario slices are combinations they do not reach.",
  ["pywr/dataframe_tools.py", "pywr/parameters/_parameters.pyx"], [("align_and_resample_dataframe", "pywr/dataframe_tools.py"), ("DataFrameParameter, ArrayIndexed*", "pywr/parameters/_parameters.pyx"), ("TablesArrayParameter", "pywr/parameters/_parameters.pyx")])
p("C17", "Combining parameters compute their documented function",
  "In every timestep and scenario a combining parameter equals its documented function of its inputs' current values: aggregates (sum, product, mean, median, min, max, any/all for indices), negation, max, min and their negative variants, division, offset, interpolation of a value, volume or flow, polynomials, indexed choice by an index parameter, binary and discount-factor style constants and scenario-wise constants. The result does not depend on the order in which inputs are declared where the function does not. Values follow changes of their inputs within the same timestep and later runs.",
  ["inputs", "programs"], "All compositions of inputs, values, scenarios and dates.",
  "Tests evaluate a few fixed values per parameter.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/parameters.py", "pywr/parameters/_polynomial.pyx"], [("AggregatedParameter etc.", "pywr/parameters/_parameters.pyx")])
p("C18", "Control curves and thresholds pick the right band and switch as configured",
  "A control curve selects the first curve that the storage's proportional volume at the start of the timestep reaches (from the highest down) and gives that band's index, value or linear or piecewise interpolation between curves; the result is monotone in the band and continuous where interpolated. A threshold compares the observed quantity (storage, node flow, parameter, recorder, date or proportion) with its threshold by exactly the configured relation, gives the off or on value accordingly, and, if it is a ratchet, stays on until the run is reset. Each scenario is judged by its own quantity.",
  ["inputs", "histories"], "All curves, volumes including exact equality, relations, histories and scenarios.",
  "Tests sample a few volumes; boundary equality and latching histories are not enumerated.",
  ["pywr/parameters/_control_curves.pyx", "pywr/parameters/control_curves.py", "pywr/parameters/_thresholds.pyx"], [("ControlCurve*", "pywr/parameters/_control_curves.pyx"), ("*ThresholdParameter", "pywr/parameters/_thresholds.pyx")])
p("C19", "Licences never allow more than the remaining amount",
  "A timestep licence gives its amount; an annual licence starts each calendar year with its full amount, is debited by the licensed node's flow times the step length, and offers in each timestep the remaining amount spread evenly over the remaining days of the year (the exponential and hyperbolic kinds give max*exp(-x/k) and value/x, where x is that rate relative to the whole amount spread over the year). The account is never negative, so use at the rate offered never exceeds the annual amount in a calendar year, except by what a step begun in the year before uses by itself. A step crossing the year end charges each year only for its own days. Each scenario has its own account, which is restored by a reset.",
  ["inputs", "histories"], "All amounts, use histories, start dates, step lengths, scenarios and reruns.",
  "Tests follow a single year of a single pattern.",
  ["pywr/parameters/licenses.py"], [("AnnualLicense and subclasses, TimestepLicense", "pywr/parameters/licenses.py")], [("remaining", "per scenario licence volume left")])
p("C20", "Recorded series and totals equal the simulated history",
  "A recorder that stores series holds for every timestep and scenario exactly the simulated flow (times factor), storage volume or proportion, deficit, ratio, area, level or parameter value, and its table of results is labelled by the right date and combination. Totals, means, deficits, frequencies, minima, rolling means, percentiles and duration curves equal their definition applied to that history, weighting by step length in days where documented. Aggregation over time and scenarios applies the configured function and weights, and goals and constraint bounds are judged on the aggregated value.",
  ["inputs", "histories"], "All histories, factors, step lengths, aggregation functions, scenarios and bounds.",
  "Tests check each recorder on one constant or simple pattern.",
  ["pywr/recorders/_recorders.pyx", "pywr/recorders/recorders.py"], [("NumpyArray*Recorder, Total*, Mean*, Minimum*, *DurationCurve*", "pywr/recorders/_recorders.pyx"), ("Aggregator", "pywr/recorders/_recorders.pyx")])
p("C21", "Annual, seasonal and count recorders attribute each step to the right period",
  "A recorder that accumulates by year attributes each timestep's flow to the calendar year (splitting a step that crosses a year end by days), and one that counts threshold exceedances per year counts each timestep at most once, leaves out excluded months, and respects the configured dates. Counts, totals and per-year tables agree with the simulated history for every start date, step length and scenario. A rerun starts from empty counts.",
  ["inputs", "histories"], "All histories, start dates, step lengths, exclusions, scenarios.",
  "Tests use daily steps and whole years.",
  ["pywr/recorders/_recorders.pyx", "pywr/recorders/recorders.py"], [("AnnualTotalFlowRecorder, AnnualCountIndex*Recorder, TimestepCountIndexParameterRecorder", "pywr/recorders/_recorders.pyx")])
p("C22", "Events are the maximal qualifying runs of triggered timesteps",
  "An event recorder reports for every scenario exactly the maximal consecutive runs of timesteps in which its trigger is on that last at least the minimum length, each with its own start, end and (if tracked) aggregated value, including one still running at the end of the simulation. Durations and statistics of events equal the definition applied to that list. A rerun starts with no events.",
  ["inputs", "histories"], "All on/off histories per scenario, minimum lengths, step lengths and trackers.",
  "Tests follow one or two patterns; overlapping patterns of several scenarios are not enumerated.",
  ["pywr/recorders/events.py"], [("EventRecorder, EventDurationRecorder, EventStatisticRecorder", "pywr/recorders/events.py")])
p("C23", "Stored output files equal the in-memory results",
  "A table or text-file output written during a run contains for every timestep, node, parameter and scenario exactly the values simulated, one row per timestep with its date, with no row missing, duplicated or stale. This holds for any buffer size relative to the run length, for reruns to the same file and for runs ended early. Scenario and route descriptions stored with it match the model.",
  ["inputs", "configurations", "histories"], "All run lengths, buffer sizes, node/parameter selections, scenarios, reruns.",
  "Tests use one buffer size and run once.",
  ["pywr/recorders/_tables_recorders.pyx", "pywr/recorders/recorders.py", "pywr/h5tools.py"], [("TablesRecorder", "pywr/recorders/_tables_recorders.pyx"), ("CSVRecorder", "pywr/recorders/recorders.py")])
p("C24", "Linked models advance in step and exchange current values",
  "Models linked in a multi-model run advance together: in every timestep the models are advanced in their declared order, and a value read from a model earlier in the order is its value of the same timestep, from a later one its value of the preceding timestep (initially its initial state). Links read exactly the named node's or parameter's value of the same scenario, and every sub-model gives the results it would give alone under those inputs. Models whose timesteps do not coincide are refused, and all are run to the end.",
  ["schedules", "configurations"], "All orders, link types, step counts and scenarios.",
  "Tests use two or three models of constant data.",
  ["pywr/model.py", "pywr/parameters/multi_model_parameters.py"], [("MultiModel", "pywr/model.py"), ("OtherModel*", "pywr/parameters/multi_model_parameters.py")])
p("C25", "A loaded document builds the same model whatever the order of definitions",
  "Loading a model from a document gives the same components, attributes and simulation results as building it by code, whatever the order in which nodes, parameters, recorders and tables are defined or refer to each other, inline or by name. Every option given in the document takes effect. Unknown types, references to missing items, circular references, unknown attributes and duplicate names are refused with an error rather than ignored.",
  ["inputs", "programs"], "All documents, definition orders and nestings.",
  "Tests load fixed files in one order.",
  ["pywr/_model.pyx", "pywr/parameters/", "pywr/nodes.py", "pywr/recorders/"], [("Model.load, load_parameter, load_recorder", "pywr/_model.pyx"), ("load classmethods", "pywr/parameters, pywr/nodes, pywr/recorders")])
p("C26", "Editing the network keeps lookup, connections and routes consistent",
  "After any sequence of adding, renaming, connecting, disconnecting and removing nodes, looking up by name finds exactly the present nodes, parameters and recorders, names are unique, connections of a node are exactly those made and not undone, and the routes used for allocation are exactly the paths from an input to an output through links; a search for routes between given kinds of ends, up to a given number of nodes or within one kind of domain finds exactly the paths that qualify. A later run uses the edited network and equals a run of a model built that way from the start. Invalid edits (duplicate name, another model's node, a node that cannot be connected, an unknown or missing slot, removing or disconnecting what is not there) are refused and leave the model unchanged; a network which cannot be allocated (as its solver requires: inputs, outputs and links lead somewhere) is refused when it is run.",
  ["histories"], "All sequences of editing operations over all node types.",
  "Tests perform single edits.",
  ["pywr/_model.pyx", "pywr/core.py", "pywr/nodes.py"], [("NamedIterator, find_all_routes, graph", "pywr/_model.pyx"), ("connect/disconnect/iter_slots", "pywr/nodes.py")])
p("C27", "Optimisation variables, objectives and constraints map one to one to the model",
  "Setting optimisation variables changes exactly the parameters they belong to, each within its declared bounds and in its declared order and size, and reading them back gives what was set; the next run uses them. Objectives and constraints handed to an optimiser are the aggregated values of the recorders so marked, with sign according to minimise or maximise, and a bound is violated exactly when the value lies outside it. A bisection search returns the feasible value it found within its tolerance of the feasibility limit and fails when nothing is feasible.",
  ["inputs", "histories"], "All variable values, sizes, bounds, recorder values, and feasibility limits.",
  "Tests run a few evaluations with example optimisers.",
  ["pywr/optimisation/", "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx", "pywr/utils/bisect.py"], [("wrappers", "pywr/optimisation/"), ("BisectionSearchModel", "pywr/utils/bisect.py"), ("set_double_variables / get_*", "pywr/parameters/_parameters.pyx"), ("is_constraint_violated", "pywr/recorders/_recorders.pyx")])
p("C28", "Data read from files and tables is exactly what was asked for, and verified",
  "Data given inside a document or in a CSV, compressed CSV, Excel, HDF5 or PyTables file, read directly or through a named table that several readers share, arrives cell for cell: a reader that asks for a column, some columns, a row, some rows or one cell is given exactly those values in the order asked for, whatever the kind of file, the order of its rows and columns, the other readers, or the folder it runs from (relative file names belong to the document's folder). The parameter or node attribute that reads it holds these values at the right timestep, month or scenario. A missing file, table, column or row is refused, and a file whose content does not match a declared checksum (any number of algorithms, upper or lower case) is never used.",
  ["inputs", "configurations"], "All tables, file kinds, selections, checksums and arrangements of readers.",
  "Tests read a few fixed files with one selection each.",
  ["pywr/dataframe_tools.py", "pywr/hashes.py", "pywr/_model.pyx", "pywr/parameters/_parameters.pyx", "pywr/nodes.py"], [("load_dataframe, read_dataframe", "pywr/dataframe_tools.py"), ("check_hash, compute_hash", "pywr/hashes.py"), ("Model.tables, Model.check_hash", "pywr/_model.pyx"), ("load_parameter_values, TablesArrayParameter.load", "pywr/parameters/_parameters.pyx")])
p("C29", "A schematic shows the network",
  "The drawing made of a model document or of a loaded model shows every node of the flow network exactly once, with its name, its chain of classes ending in its own, and its schematic position if it has one, and connects exactly the nodes that are connected. Virtual nodes (licences, aggregated nodes and storages) and the inner parts of compound nodes are not shown; connections to inner parts are drawn to the compound node. Attributes, when asked for, are the node's own, with parameters named together with their class. The drawing of a document and of the model loaded from it agree, and the drawing of a model follows its edits.",
  ["inputs", "histories"], "All documents over all node types and all edits.",
  "Tests draw one fixed model.",
  ["pywr/notebook/__init__.py", "pywr/nodes.py"], [("pywr_json_to_d3_json, pywr_model_to_d3_json, get_node_attr, PywrSchematic", "pywr/notebook/__init__.py"), ("parents of inner nodes", "pywr/nodes.py")])
p("C30", "Reports about runs say what happened",
  "The flow diagram links computed from stored route flows give, for every pair of (renamed) ends, the sum over the routes between them of the flow aggregated over the chosen timesteps and scenarios with the chosen functions; routes left out by the caller, circular ones if so asked, and links below the threshold are absent, and nothing else is. A progress recorder reports at the first step of every run and then each time another whole percent is complete, up to 100 at the end, and never twice the same. The result of a run carries the number of timesteps and scenario combinations run, the last timestep, and the solver with the settings really used; its table has the same fields. A profile has one entry for every component and phase. A solver setting is what the user passed, else what the environment says, else off. The probability which a density recorder gives for a storage being at or below its target (or its control curve) is the proportion of the volumes recorded - resampled as asked, of all scenarios together - which are, up to the smoothing, and is the area under the density it reports, which with reflection is one in all. An assertion on a parameter fails the run exactly when a value differs from the expected one, at the first timestep and scenario where it does.",
  ["inputs", "histories"], "All models, runs, selections and settings.",
  "Tests make one diagram of one model with default arguments and do not look at progress.",
  ["pywr/notebook/sankey.py", "pywr/recorders/progress.py", "pywr/_model.pyx", "pywr/profiler.py", "pywr/solvers/__init__.py", "pywr/recorders/kde.py", "pywr/recorders/recorders.py"], [("routes_to_sankey_links", "pywr/notebook/sankey.py"), ("ProgressRecorder", "pywr/recorders/progress.py"), ("ModelResult", "pywr/_model.pyx"), ("Profiler", "pywr/profiler.py"), ("GaussianKDEStorageRecorder, NormalisedGaussianKDEStorageRecorder", "pywr/recorders/kde.py"), ("AssertionRecorder", "pywr/recorders/recorders.py"), ("environment settings", "pywr/solvers/__init__.py")])
p("C31", "Aquifers discharge to their streams according to their level",
  "A Keating aquifer's level is the linear interpolation of its volume in its level-volume relation (given, or accumulated from area, storativity and the heights of its slices); its capacity and lowest volume are the extremes of that relation, and setting an initial level is the same as setting the volume at that level. In every timestep and scenario each stream receives exactly the sum over its outflow levels below the aquifer's current level of 2 x transmissivity x coefficient x height above it, whatever else is wanted from or offered to the aquifer: recharge and abstraction at additional outlets take place within what remains, the volume changes by their balance, and the run fails only when the springs can't be supplied. Reruns with another initial level start from that level.",
  ["inputs", "histories"], "All aquifers, recharge and abstraction series, step lengths, scenarios, solvers and initial states.",
  "Tests run one aquifer with one stream for a single timestep.",
  ["pywr/domains/groundwater.py", "pywr/parameters/groundwater.py"], [("KeatingAquifer", "pywr/domains/groundwater.py"), ("KeatingStreamFlowParameter", "pywr/parameters/groundwater.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), max(len(x["title"]) for x in P))
