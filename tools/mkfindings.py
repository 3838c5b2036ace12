"""write known_findings.jsonl: every defect repaired by a fix commit in /repo (nothing here suppresses a violation)"""
import json, subprocess
PROPS = {
    "285fc9f": "C12", "27e20c5": "C04", "f6e9705": "C02 C04", "d288973": "C02 C04", "0d3ee8a": "C03", "7e2b6c1": "C03", "aa7c4a5": "C03",
    "29c5054": "C17 C18", "fc520e0": "C16", "f4f23b3": "C09 C04", "802e5ab": "C09", "f06824d": "C09", "62ae5a1": "C10 C04", "cafcede": "C20 C24",
    "525281e": "C11", "b6abcef": "C11", "ca74f17": "C13", "a94d18d": "C05 C06", "6d81ae8": "C11 C04", "ff4962b": "C11 C06", "e3d73c5": "C09",
    "2e3556b": "C12", "cf5173f": "C12 C20", "820c354": "C16", "7662185": "C16", "9990acd": "C17", "19e1bca": "C03 C17", "87a9c0c": "C18",
    "d468038": "C19", "f397cf5": "C20", "fa49603": "C20", "2330f93": "C20", "4481d2c": "C20", "449f75f": "C20", "e867e72": "C20", "5f16bc6": "C19",
    "feb9fd4": "C21", "8c824be": "C21", "3e84e85": "C21", "06b5db4": "C22", "b4b47c1": "C22", "3dabf0b": "C22", "8c486d7": "C23", "f79527c": "C23",
    "8f6d8f1": "C23", "401ebdd": "C23", "293f028": "C23", "fb07d6d": "C23", "1cdaa3a": "C23", "791aab8": "C23", "5b6a910": "C23", "b9915e9": "C24",
    "2bb1be8": "C24", "150635a": "C24", "25dba21": "C24 C04", "defc629": "C24 C25", "38b6012": "C25", "b1c205c": "C25", "7c3cc4b": "C25",
    "75edabf": "C25", "e3c42d5": "C25", "7c6f0be": "C25", "538e9e9": "C25", "443ac46": "C25", "d3bde1c": "C25", "b6cd6f7": "C25 C20",
    "223e0e4": "C25 C14", "b8d4af0": "C26", "41b499b": "C26", "e5465f2": "C26", "d5d95bc": "C26", "0481964": "C26", "0500d97": "C27",
    "319c2f5": "C27", "0e00107": "C27", "bb07e0b": "C27", "254b856": "C27 C15 C18", "994813e": "C29", "7bb9daa": "C29", "6eecf7e": "C29", "a7fef7a": "C29", "7bc1ce9": "C03 C17 C18",
    "c0d56d9": "C08 C05 C06", "fa4d19a": "C30", "9d42c90": "C31",
}
WHAT = {
    "c0d56d9": "with the route-based solvers a node listed twice in a virtual storage was limited by its first factor only, although it was debited by both",
    "fa4d19a": "the scenario aggregation function given for flow diagram links was ignored",
    "9d42c90": "an aquifer described by area and storativity could not be loaded from a document",
    "285fc9f": "prev_flow of aggregated nodes and of the containers of compound nodes stayed zero",
    "27e20c5": "an aggregated storage kept the flow of the last run after reset",
    "f6e9705": "sub-nodes of compound nodes were not reset, so their previous flow leaked into the next run",
    "d288973": "companion of f6e9705: sub-nodes are reset within the entry of their compound node",
    "0d3ee8a": "a component added after a run was never set up or evaluated",
    "7e2b6c1": "a parameter added after a run was never set up or evaluated",
    "aa7c4a5": "multiple threshold parameters read their thresholds' values of the previous timestep",
    "29c5054": "a weighted average profile called the property is_constant of a node's maximum volume and raised",
    "fc520e0": "a DataFrameParameter dropped name and other keyword arguments",
    "f4f23b3": "a seasonal virtual storage started active outside its season, and kept the state of the previous run",
    "802e5ab": "an annual reset date between the last timestep of a year and the first of the next was skipped",
    "f06824d": "monthly virtual storages counted timesteps, not months, when a step skips a month",
    "62ae5a1": "a rolling virtual storage used the initial utilisation of the model as first set up",
    "cafcede": "means and frequencies of runs ended early were divided by the length of the whole run",
    "525281e": "a route through two members of an aggregated node was counted once in its limits",
    "b6abcef": "routes on which a member only passes its own inflow were counted to it",
    "ca74f17": "aggregated factors that vary to zero were divided by",
    "a94d18d": "lpsolve ignored lower bounds above upper ones and storages that shrank below their volume",
    "6d81ae8": "lpsolve kept the limits of aggregated nodes of the first timestep",
    "ff4962b": "glpk failed with a singular basis after factors changed",
    "e3d73c5": "periodic virtual storages compared with the date of the last timestep of the previous run",
    "2e3556b": "rolling means divided by the window before it was full",
    "cf5173f": "deficit parameters of compound nodes used the flow of the container before it was set",
    "820c354": "scenario slices without stop, or beyond the end, loaded the wrong columns",
    "7662185": "an offset look-up beyond the run of a sliced scenario indexed by the whole scenario",
    "9990acd": "polynomials of a node's flow read the flow of the next, zeroed, timestep",
    "19e1bca": "a level parameter was read before it was evaluated",
    "87a9c0c": "thresholds on flows and recorders compared the state left by the previous run in the first timestep",
    "d468038": "a step across the year end left the account of the new year negative",
    "f397cf5": "recorders comparing with observed flows had no aggregated value",
    "fa49603": "one missing value made the temporal aggregate NaN although documented to be ignored",
    "2330f93": "division by zero for a control curve at one", "4481d2c": "the scenario of duration curve targets was not loaded",
    "449f75f": "rolling recorders sized their window by the first timestep of the previous run",
    "e867e72": "a single duration curve target with a scenario was refused",
    "5f16bc6": "licences with calendar timesteps counted the remaining days from the last day of the step",
    "feb9fd4": "years reached by a step dated after the end of the run had no column",
    "8c824be": "annual totals attributed a whole step to the year of its start",
    "3e84e85": "years with negative indices, or a run without timesteps, were counted",
    "06b5db4": "events were triggered by 'value > 0', not by the threshold parameter being on",
    "b4b47c1": "events still running at the end ignored the minimum length",
    "3dabf0b": "events still running when a run is ended early were lost",
    "8c486d7": "tables recorders refused node objects and split two-letter names",
    "f79527c": "buffered rows were lost or repeated in restarted and early-ended runs",
    "8f6d8f1": "a tables recorder without items failed at the first row", "401ebdd": "an item listed in two places was written to one",
    "293f028": "open-ended scenario slices were stored as garbage",
    "fb07d6d": "stored runs with routes, combinations or slices could not be read back",
    "1cdaa3a": "csv_kwargs were not passed on", "791aab8": "the file of an unfinished run was still open when written again",
    "5b6a910": "a tables recorder could not be set up after an unfinished run",
    "b9915e9": "the timestep options of a linked document were dropped", "2bb1be8": "the solver of a linked document was dropped",
    "150635a": "linked models with different numbers of steps were run to the shortest",
    "25dba21": "a value read before the first timestep was that of the previous run",
    "defc629": "relative paths of linked models were resolved from the working directory",
    "38b6012": "an include listed twice, or a directory, failed",
    "b1c205c": "comments of parameters were dropped", "7c3cc4b": "options of rolling mean recorders were dropped",
    "75edabf": "a node defined twice silently replaced the first", "e3c42d5": "two recorders of one name: the second was dropped silently",
    "7c6f0be": "a typing error in a threshold was reported as a missing parameter",
    "538e9e9": "costs and limits of split links were dropped", "443ac46": "control curve and cost of reservoirs were dropped",
    "d3bde1c": "the colour of inputs was dropped", "b6cd6f7": "an aggregated recorder loaded without agg_func had none",
    "223e0e4": "tables for scenarios with one member were read as constants",
    "b8d4af0": "disconnecting nodes with slots or compound nodes left edges behind", "41b499b": "unknown slots were ignored by compound nodes",
    "e5465f2": "a node whose constructor raised left its parts in the model",
    "d5d95bc": "removing a compound node left its parts, and the model was not set up again",
    "0481964": "parts of a compound node could shadow another node's name",
    "0500d97": "integer variables were never handed to the parameters by pygmo problems",
    "319c2f5": "equality constraints were handed to pygmo as values, not differences",
    "0e00107": "days of radial basis profiles could be set beyond the year",
    "bb07e0b": "setting variables of a control curve wrote into the array the user passed in",
    "994813e": "monthly and rolling virtual storages were drawn in schematics of documents, and their spelling mattered",
    "7bb9daa": "attributes in schematics of documents failed for lists and for documents without parameters",
    "6eecf7e": "the inner storage and link of a BreakLink were shown as nodes of the model",
    "a7fef7a": "the initial level of a KeatingAquifer could not be read before set-up",
    "7bc1ce9": "after a change of dependencies components were evaluated in the order of the previous set-up",
    "254b856": "values given as whole numbers were truncated when optimised or scaled",
}
with open("/verif/known_findings.jsonl", "w") as f:
    for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "7b14608..HEAD"], text=True).splitlines():
        h, s = l.split(" ", 1)
        h = h[:7]
        if not s.startswith("fix:"):
            continue
        for p in PROPS[h].split():
            f.write(json.dumps({"status": "fixed", "property": p, "commit": h, "text": "fixed: property=%s %s %s" % (p, h, WHAT[h])}) + "\n")
