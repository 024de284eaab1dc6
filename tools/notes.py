"""notes per property: TECH goes to MANIFEST.json and DESIGN.md, DESIGN to DESIGN.md"""
DEFAULT = ("No counterexample among the generated cases of the seed and tier (counts and samples in the evidence "
           "file); no claim beyond the generated domain. Trusts Hypothesis, the oracle in pbt/ and the libraries.")
TECH = {
    "C01": "generated parameters against independent geometry (trigonometry, edge set by definition)",
    "C02": "generated parameters with injected faults against the list of documented ranges",
    "C03": "stateful generation of assignments against a model of valid attributes",
    "C04": "round trip and metamorphic relation (permuted lines) over generated cities",
    "C05": "mutation of valid texts with a fault oracle that parses the text independently",
    "C06": "generated demands against the formulas of the documentation and conservation of the total",
    "C07": "stateful generation against a dictionary, round trip by CSV and table, damaged files",
    "C08": "generated and damaged sequences against an independent decision of the route rules",
    "C09": "generated cities and variants against an independent construction of each family",
    "C10": "model-based histories of a network against a list model, invariant after every operation",
    "C11": "model-based histories of the mode manager against a list model",
    "C12": "generated networks against the extended graph of the reference model (nodes, edges, times)",
    "C13": "generated networks against optimal strategies of an independent algorithm (value iteration)",
    "C14": "consistency invariants of strategies, enumeration of paths, differential of all pairs and each pair",
    "C15": "generated networks against reachability in the reference network, order and history relations",
    "C16": "generated stops against the lateral access model integrated over the width, monotonicity relation",
    "C17": "generated problems against passenger flows of the reference model, conservation invariants",
    "C18": "generated problems against resources recomputed passenger by passenger, scaling relation",
    "C19": "generated lines and dwell times against running and cycle times recomputed",
    "C20": "generated networks against the set of streets with service, order and size relations",
    "C21": "generated networks against loads and street frequencies recomputed",
    "C22": "generated problems against recomputed costs; histories against fresh problems; metamorphic relations",
    "C23": "scripted solver results against a model of the iterations, and observed real optimizations",
    "C24": "generated solutions against reports recomputed from the reference model, text and CSV parsed",
    "C25": "histories of plots compared pixel by pixel with plots in a fresh state, metamorphic relations",
    "C26": "texts parsed back and compared with the objects they describe, objects unchanged",
    "C27": "generated attributes, valid and not, against the list of documented faults; points against trigonometry",
    "C28": "differential: each generated problem computed twice and in two other processes with other hash seeds",
    "C29": "metamorphic: generated problems against the same ones in other units or with their lines written otherwise",
}
DESIGN = {
    "C01": "Oracle: positions from polar coordinates written independently, edge set by role, distances as hypot, "
           "parameters read back. Tests: fixed n up to 8 with one asymmetry; here every combination with any n up to 14.",
    "C02": "Oracle: list of the parameters out of range, with the exception of each; several faults at once accept any of "
           "their exceptions. Values close to each limit at both sides (1e-1 to 1e-12). Constructor and validator both.",
    "C03": "Oracle: dictionary of attributes and predicate of each; after each assignment all the attributes are read.",
    "C04": "Oracle: parsed text equals the nodes of the city; import of permuted lines equals the city; export of the "
           "import equals the text; rebuilt parameters give the same positions. Cities up to 120 zones, from text and file; "
           "fault injected: files opened with ASCII or Latin-1 as the default encoding.",
    "C05": "Oracle: independent parser that finds the documented faults; well-formedness of what is accepted. Faults come "
           "from edits of lines and fields (ids, types, zones, numbers, order, missing and extra fields).",
    "C06": "Oracle: formulas by pair and total; every n from 0 to 8; alpha + beta = 1 and limits.",
    "C07": "Model: dictionary of accepted cells. Operations: change, bad change, write, read, rebuild from tables, reports of "
           "totals. Damaged files and tables must raise and leave nothing half done.",
    "C08": "Oracle: the rules, one by one, over the four sequences; arbitrary sequences over few nodes so that both verdicts "
           "are frequent.",
    "C09": "Oracle: nodes and stops of every line by role from the definition of each family; ids distinct over all the "
           "families of two modes; all of them added to one network.",
    "C10": "Model: ordered list of lines and modes with the documented rules of acceptance. Observed after each operation: "
           "lines, ids, modes, look-ups, file.",
    "C11": "Model: list of (name when added, mode). Names and d of the modes change during the history.",
    "C12": "Oracle: node and edge sets by key with their times from positions and speeds; no repeated node or edge; custom "
           "lines whose return differs and with any stops.",
    "C13": "Oracle: labels by value iteration to convergence, sets of lines by the best of all prefixes; reachability. Ties "
           "and infinite values included. Up to 4 zones, 2 modes, about 40 lines.",
    "C14": "Oracle: consistency of each node of the strategy with the labels; paths enumerated from the successors; the "
           "tables of all pairs against those of each pair.",
    "C15": "Oracle: reachability with lines of positive frequency; verdict under permutation of lines and cells and "
           "after other validations (also failed) on the same objects.",
    "C16": "Oracle: fraction of the width for which a stop is cheapest, from the break points of a piecewise linear "
           "difference; intervals where the share jumps; growing labels. Any d up to 6 and more, width 0.",
    "C17": "Oracle: flows of the reference model; conservation by line, section and pair; shares altered so that both stops "
           "are used.",
    "C18": "Oracle: times of each passenger through each node of the strategy; scaling of all trips by a factor.",
    "C19": "Oracle: lengths through all nodes, dwell at each stop of each direction, costs by line.",
    "C20": "Oracle: set of unordered pairs of nodes by mode; permutation of lines and modes; scaling of frequencies.",
    "C21": "Oracle: loads and street frequencies in the order of lines, edges and modes; very small frequencies.",
    "C22": "Value: the three costs recomputed. History: any interleaving of evaluations and reports against a fresh problem, "
           "with a snapshot of every input. Moved: other order, ids, rotation and mirror, cases with ties set aside.",
    "C23": "The solver is replaced by scripted results (converged or not, infeasible, negative, small) and the sequence of "
           "strategies, starting points, number of runs and the result chosen are compared with the model; real "
           "optimizations observe that the solver gets the objective and constraints stated.",
    "C24": "Oracle: every figure of the network and overall reports recomputed; texts and CSV parsed back.",
    "C25": "Oracle: pixel equality with the same plot in a fresh figure, presence of the colours of nodes and lines; the saved figure "
           "is inspected for labels, places and colours of the nodes that share their place with no other, and arrows of streets and lines. "
           "Strategies: labels and arrows drawn against nodes and edges of the elementary paths.",
    "C26": "Oracle: parsers of the texts; multiset of items equals that of the object; values within half a unit of "
           "the last digit; snapshot of the object.",
    "C27": "Oracle: predicate of each attribute, pair of nodes allowed in zones and edges; hypot and atan2 for points.",
    "C28": "Oracle: the same computation (about 20 results, from the exported city to the optimization) again in the process "
           "and in long-lived processes with PYTHONHASHSEED 1 and 77, one of them after another problem.",
    "C29": "Oracle: the same problem in other units (lengths, time, money, passengers; factors 2**-12 to 2**12 and others, so that any "
           "absolute threshold is crossed), with halves of lines, directions exchanged or explicit frequencies; every value "
           "observed must change by its power of the factor. Problems within 1e-6 of a tie are left out, as in C22.",
}
NOTE = {}
