"""Writes /verif/properties.jsonl (the list of properties is kept here in readable form)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


CITY = "sidermit/city/graph.py"
DEM = "sidermit/city/demand.py"
MODE = "sidermit/publictransportsystem/mode.py"
PAX = "sidermit/publictransportsystem/passenger.py"
NET = "sidermit/publictransportsystem/network.py"
EXT = "sidermit/optimization/preoptimization/extended_graph.py"
HYP = "sidermit/optimization/preoptimization/hyper_path.py"
ASG = "sidermit/optimization/preoptimization/assignment.py"
USR = "sidermit/optimization/users_cost.py"
OPC = "sidermit/optimization/operators_cost.py"
INF = "sidermit/optimization/infrastructure_cost.py"
CON = "sidermit/optimization/constrains.py"
OPT = "sidermit/optimization/optimizer.py"

prop("C01", "A city built from parameters has exactly the documented geometry",
     """A city built from valid parameters has one CBD (id 0) and, for each of its n zones, one periphery (id 2z-1) and
     one subcenter (id 2z) placed at the polar coordinates given by L, g, the zone angle (360/n*(z-1) by default) and the
     asymmetry factors Gi (subcenters) and Hi (peripheries), with the CBD at eccentricity etha of the subcenter of its
     zone, and every node has the width p.
     Its directed edges are exactly periphery-subcenter of the same zone, subcenter-CBD, and subcenter-subcenter of
     neighbouring zones (a ring for 3 or more zones), all in both directions, each listed once and as long as the
     straight line between its ends.
     The city reports back the parameters it was built from.""",
     ["inputs"], "every n from 0 up, L, g, p >= 0, etha in [0,1], every zone, angle list, Gi and Hi list, alone or combined",
     """The tests build a handful of cities (n up to 4 or so, one asymmetry at a time) and compare a few coordinates; the
     combination of asymmetries, other n, and the whole edge set are not covered.""",
     [CITY], [("parametric construction and asymmetries", CITY + ":build_from_parameters, __*_asymmetry"),
              ("edge construction", CITY + ":__build_edges"), ("distances", CITY + ":get_edges_distance")],
     ["Graph.get_nodes", "Graph.get_zones", "Graph.get_edges", "Graph.get_edges_distance", "Graph.get_parameters"])

prop("C02", "City and demand parameters outside their documented range are always rejected",
     """Building a city or a parametric OD matrix raises the dedicated exception of the offending parameter whenever that
     parameter is out of its documented range (negative n, L, g, p, Gi, Hi or y; etha outside [0,1]; eccentricity given
     without its zone or the other way round; zone outside 1..n; angles outside [0,360]; lists that do not have one value
     per zone; a or alpha outside [0,1], beta outside [0,1), alpha+beta above 1; missing demand parameters).
     Whenever every parameter is in range, limits included, no exception is raised.""",
     ["inputs"], "every combination of valid and invalid values of the construction parameters, including the range limits",
     "The tests try one invalid value per parameter, mostly far from the limits and with the other parameters fixed.",
     [CITY, DEM], [("city parameters", CITY + ":parameters_validator"), ("demand parameters", DEM + ":parameters_validator")],
     ["Graph.build_from_parameters", "Graph.parameters_validator", "Demand.build_from_parameters"])

prop("C03", "Transport modes and passengers never hold an out-of-range attribute",
     """Whatever the sequence of assignments, a transport mode or a passenger never holds an out-of-range attribute: an
     out-of-range or missing value, at construction or later, raises the exception of that attribute and leaves the stored
     value as it was, and an in-range value (limits included) is accepted and read back unchanged.
     Valid means: name present, bya 0 or 1, theta in [0,1], speeds of mode and walking > 0, every other number >= 0.
     At construction the maximum and initial frequencies of a mode are those given per line times its d parallel lines.""",
     ["inputs", "histories"], "every attribute, value and sequence of constructions and assignments",
     "The tests assign one invalid value per attribute once; they do not mix histories nor check that a rejected value left no trace.",
     [MODE, PAX], [("validated properties of modes", MODE + ":mode_property, TransportMode.__init__"),
                   ("validated properties of passengers", PAX + ":passenger_property")],
     ["TransportMode", "Passenger"])

prop("C04", "Exporting a city to Pajek and importing it back loses nothing",
     """Importing the Pajek text of a city gives a city with the same nodes (id, name, type, zone, exact coordinates and
     width), zones, edges and distances, whatever the order of the node lines in the text, whether it is read from the
     text or from the file written (under any default encoding of the system), and exporting the imported city gives an equivalent text.
     The parameters the imported city reports describe it: building a city from them gives the same positions for all
     the peripheries and subcenters whenever the two nodes of each zone lie on one ray from the origin, and for the CBD whenever it lies at the origin or on the ray of a subcenter.""",
     ["inputs"], """every city whose mean periphery radius is at least its mean subcenter radius and whose CBD is not
     farther than the subcenter it points to (the representable ones), and every permutation of the node lines""",
     "The tests read a few fixed files and one export of one symmetric city.",
     [CITY], [("export", CITY + ":export_graph, graph_to_pajek_file"), ("import", CITY + ":build_from_content, build_from_file"),
              ("parameter recovery", CITY + ":build_from_content")],
     ["Graph.export_graph", "Graph.graph_to_pajek_file", "Graph.build_from_content", "Graph.build_from_file", "Graph.get_parameters"])

prop("C05", "A Pajek text is accepted only if it describes a well formed city",
     """Importing a Pajek text either raises an exception or gives a well formed city with exactly the nodes of the text:
     one CBD in zone 0, zones 1..n with one periphery and one subcenter each, node ids without repetition, and the edges
     that its zones require.
     A text with a duplicated id, a missing, repeated or unknown node type, a missing zone or CBD, a CBD outside zone 0,
     a non integer id or zone, a negative width, an even number of nodes, or a node line without seven fields is always rejected, and any
     text without such faults describing a representable city is accepted.""",
     ["inputs"], "every Pajek text obtained from a valid one by any combination of corruptions of its lines and fields",
     "The tests use one fixed file per kind of error.",
     [CITY], [("line parsing", CITY + ":__pajekfile_to_dataframe"), ("zone and uniqueness checks", CITY + ":build_from_content, __add_zone, __add_nodes")],
     ["Graph.build_from_content"])

prop("C06", "A parametric OD matrix has the documented structure and adds up to the total",
     """In an OD matrix built from (Y, a, alpha, beta) over n > 1 zones, each periphery generates a*Y/n trips (alpha of them
     to the CBD, beta to its own subcenter, the rest evenly to the other subcenters) and each subcenter (1-a)*Y/n trips
     (alpha/(1-beta) to the CBD, the rest evenly to the other subcenters); no other pair has trips. With one zone, the
     periphery sends alpha of its trips to the CBD and the rest to its subcenter, and the subcenter all of its trips to the CBD.
     No cell is negative and cells and reported total add up to Y (0 for a city without zones).""",
     ["inputs"], "every city (any numbering of its nodes) and every admissible Y, a, alpha, beta, limits included",
     "The tests check two or three cells for n <= 3 and one set of shares.",
     [DEM], [("shares", DEM + ":build_from_parameters")], ["Demand.build_from_parameters", "Demand.get_matrix", "Demand.get_total_trips"])

prop("C07", "The OD matrix keeps every accepted cell, its total, and survives persistence",
     """After any sequence of cell changes the OD matrix holds in each cell the last accepted value (0 if none) and the
     reported total is the sum of all cells.
     A negative value or an unknown origin or destination is rejected with its exception and changes nothing.
     Writing the matrix to CSV and reading it back over the same city, or rebuilding it from its table of values, gives the
     same matrix and total, and a malformed line or table is rejected.""",
     ["histories", "inputs"], "every sequence of changes (accepted and rejected), file round trips and malformed files",
     "The tests change single cells and read fixed files.",
     [DEM], [("cell updates", DEM + ":change_vij"), ("CSV", DEM + ":matrix_to_file, build_from_file"), ("tables", DEM + ":build_from_content")],
     ["Demand.change_vij", "Demand.get_matrix", "Demand.get_total_trips", "Demand.matrix_to_file", "Demand.build_from_file", "Demand.build_from_content"])

prop("C08", "A custom route is accepted if and only if it obeys the route rules",
     """A custom route is accepted exactly when it has an id, a transport mode, non empty node and stop sequences in both
     directions, the return direction starts where the forward one ends and ends where it starts, no direction visits a
     node twice, every stop is one of the nodes of its direction, and each direction stops at its first and last node.
     A rejected route raises an exception of the transport network or mode family; an accepted one exposes exactly the
     sequences given, as lists of node ids, and sequences survive conversion to text and back.""",
     ["inputs"], "every id, mode and quadruple of node and stop sequences",
     "The tests try one hand-written sequence per rule.",
     [NET], [("route rules", NET + ":Route.parameters_validator, stops_validator, direction_validator, sequences_validator"),
             ("text conversion", NET + ":Route.sequences_to_list, sequences_to_string")],
     ["Route"])

prop("C09", "The predefined route families have their documented shape in every city",
     """For every city and mode, each predefined family (circular, feeder, radial, diametral and tangencial, with their
     short, express and jump variants) gives its documented lines: the nodes and stops that the family defines for each
     zone, the return direction exactly the forward one reversed (one single direction around the subcenters for each of
     the two circular lines), one line per zone, or half of them when the jump pairs opposite zones.
     The lines have distinct ids, also across families, variants and jumps, and all of them can be added to the network of that city.
     A jump outside 1..n/2, a circular line with fewer than two zones or something that is not a mode is rejected.""",
     ["inputs", "configurations"], "every city (any number of zones, any node numbering), family, variant and jump",
     "The tests check the families for cities of up to 5 zones and a few jumps.",
     [NET], [("families", NET + ":get_circular_routes, get_feeder_routes, get_radial_routes, get_diametral_routes, get_tangencial_routes")],
     ["TransportNetwork.get_*_routes", "TransportNetwork.add_route"])

prop("C10", "A network stays consistent through any history of additions and removals",
     """After any sequence of adding and removing routes and modes, the network contains exactly the routes accepted and not
     removed since (directly or with their mode), in order, with distinct ids, every consecutive pair of nodes of both
     directions of each of them being an edge of the city, and every mode used by a route is registered.
     It never holds more than two modes, two modes only with different names and at least one with a single line (d = 1), and removing a mode removes
     it and all of its routes.
     A rejected operation raises an exception and changes nothing, and the routes file lists exactly the current routes.""",
     ["histories"], "every sequence of additions, removals and look-ups of routes and modes, valid or not",
     "The tests run two or three operations in a fixed order.",
     [NET], [("registry", NET + ":TransportNetwork.add_route, remove_route, add_transport_mode, remove_transport_mode"),
             ("edge check", NET + ":__edges_validator"), ("routes file", NET + ":routes_to_file")],
     ["TransportNetwork.get_routes", "TransportNetwork.get_modes", "TransportNetwork.get_route", "TransportNetwork.routes_to_file"])

prop("C11", "The mode manager is a faithful registry of modes by name",
     """After any sequence of additions and removals the mode manager holds the accepted and not removed modes in order,
     with distinct names, and looking one up by name returns the very mode added under it, whatever happens to the attributes of the mode meanwhile.
     Repeated names, things that are not modes, and unknown names in look-ups or removals are rejected without effect.
     The set is declared valid for assignment exactly when there is one mode, or two with at least one of d = 1; otherwise the validation raises.""",
     ["histories"], "every sequence of operations, starting empty or with the default modes",
     "The tests do a single addition or removal.",
     [MODE], [("registry", MODE + ":TransportModeManager")], ["TransportModeManager"])

prop("C12", "The extended graph represents the city, the lines and their times exactly",
     """The extended graph of a network has one stop node per city node and mode with service there and one route node per line,
     direction and stop, joined exactly by: access edges both ways lasting the technological access time of the mode,
     boarding edges with the frequency of the line divided by its d (not at the end of a direction), alighting edges lasting
     the transfer penalty (not at its start), and section edges between consecutive stops.
     A section lasts the length of the path that the line follows between both stops, through every node of its sequence,
     divided by the speed of the mode, and a circular line closes on itself.
     When no frequencies are given, those of the modes are used.""",
     ["inputs", "configurations"], "every city, set of lines (predefined, circular, express, custom with different directions), frequencies and penalty",
     "The tests compare one two-zone network.",
     [EXT], [("construction", EXT + ":ExtendedGraph.build_*")], ["ExtendedGraph.get_extended_graph_nodes", "ExtendedGraph.get_extended_graph_edges"])

prop("C13", "Travel strategies are optimal: no other strategy has a lower expected time",
     """For every origin and destination, the expected time reported for every node is the minimum over all travel
     strategies: a route node takes the better of riding on or alighting (without penalty at the destination), a stop takes
     the better of walking or of boarding the best set of lines, whose waiting time is theta*(pw/pv) over the sum of their
     frequencies per line, and access times are weighted by pa/pv.
     Stops of the origin include their access time and the trip does not pass through the origin city node, and a node has infinite time exactly when the destination cannot be reached from it.""",
     ["inputs", "configurations"], "every network, passenger, frequency vector and OD pair",
     "The tests check rounded labels of one network with two pairs; optimality over all strategies is never tested.",
     [HYP], [("label-setting algorithm", HYP + ":build_hyperpath_graph")], ["Hyperpath.build_hyperpath_graph", "Hyperpath.get_hyperpath_OD", "Hyperpath.get_all_hyperpaths"])

prop("C14", "Strategies, frequencies and elementary paths are consistent with the labels",
     """In the strategy of an OD pair, every node from which the destination is reachable continues either by one edge, being
     its time that of the edge plus that of the next node, or by a set of boarding edges that contains every line that
     improves it and none that worsens it, and the reported accumulated frequency is the sum over that set.
     The elementary paths of each stop of the origin are exactly all the paths that follow the strategy from the origin,
     through that stop, to the destination, without repetition.
     The results for all OD pairs contain exactly the pairs with trips, with their trips and the same strategies as each pair on its own.""",
     ["inputs", "configurations"], "every network, passenger, frequency vector and OD matrix",
     "The tests count the paths of one network.",
     [HYP], [("successors", HYP + ":build_hyperpath_graph"), ("paths", HYP + ":get_hyperpath_OD, get_all_hyperpaths")],
     ["Hyperpath.get_hyperpath_OD", "Hyperpath.get_all_hyperpaths"])

prop("C15", "A network is declared valid exactly when it connects every OD pair with trips",
     """The validation of a network (and so the construction of an optimization problem) succeeds exactly when every OD pair with trips can be
     travelled with the lines of the network at their frequencies and the modes in service are one, or two with at least one of d = 1;
     otherwise it raises a transport network exception.
     The verdict does not depend on the order of lines or cells, nor on previous validations or failures.""",
     ["inputs", "histories", "configurations"], "every network and OD matrix, connected or not, validated repeatedly",
     "The tests try one disconnected and one connected network.",
     [HYP, OPT], [("validation", HYP + ":network_validator")], ["Hyperpath.network_validator", "Optimizer"])

prop("C16", "Trips are split between the stops of a node by the lateral access model",
     """For every OD pair the percentages assigned to the stops of the origin lie in [0,100] and add up to 100, and all of
     it goes to the only stop when there is just one.
     With two stops, the share of each is the fraction of the width of the node, with users spread evenly, for whom it is the
     cheapest once the walk (at walking speed, weighted by pa/pv) to the nearest line of the mode is added to its label: the d=1 stop stands at the
     centre and the lines of the other mode at the centres of d equal strips.
     The share of a stop never grows when its label grows.""",
     ["inputs"], "every pair of labels, width, walking speed, values of time and number of parallel lines",
     "The tests check three rounded percentages of one network.",
     [ASG], [("lateral assignment", ASG + ":get_assignment")], ["Assignment.get_assignment"])

prop("C17", "Passengers are conserved from origins to destinations along every line",
     """Boardings, alightings and loads are those obtained by sending the trips of each stop along its strategy, split among the attractive
     lines in proportion to the given frequencies, and expressed per vehicle.
     Hence in each line and direction boardings equal alightings, the load of each section is the previous one plus
     boardings minus alightings, never negative and zero at the end of a direction, and all trips are boarded at their origin and alighted at their destination.
     The most loaded section of a line is the largest load over both directions.""",
     ["inputs", "configurations"], "every network, OD matrix, strategy and frequency vector (also different from the one of the strategy)",
     "The tests check nine rounded values of one network.",
     [ASG], [("propagation", ASG + ":get_alighting_and_boarding"), ("maximum", ASG + ":most_loaded_section")],
     ["Assignment.get_alighting_and_boarding", "Assignment.most_loaded_section"])

prop("C18", "Users' resources account for every minute of every passenger exactly once",
     """Access, waiting, in-vehicle time and transfers are the sums over passengers of: lateral plus technological access at the
     origin and technological access of each change of mode; theta over the accumulated frequency per line at each boarding; section
     times, dwell at each stop where they stay on board (boarding plus alighting time, or the largest of both if simultaneous)
     and half of the alighting time where they get off; and the alightings before the destination.
     The users' cost values them with the social values of time, the transfer penalty being in equivalent in-vehicle minutes.
     Multiplying all trips (with loads per vehicle fixed) multiplies all of them by the same factor.""",
     ["inputs", "configurations"], "every network, OD matrix, strategy, frequency vector and boardings per vehicle",
     "The tests check rounded totals of one network without dwell times.",
     [USR], [("resources", USR + ":resources_consumer"), ("cost", USR + ":get_users_cost")], ["UsersCost.resources_consumer", "UsersCost.get_users_cost"])

prop("C19", "Cycle times and operators cost follow from lines, dwell times and vehicle size",
     """The running time of a line is the length of both directions of its node sequences over its speed, and its cycle time adds,
     at every stop and direction, the boarding and alighting times of all passengers per vehicle (their sum if sequential, the largest of both if simultaneous).
     The operators cost is the sum over the lines with frequency of (co + c1*k)*f*cycle time; lines without frequency cost nothing.""",
     ["inputs", "configurations"], "every set of lines, boardings, alightings, frequencies and vehicle sizes",
     "The tests check one network with rounded values.",
     [OPC], [("times", OPC + ":lines_travel_time, get_cycle_time"), ("cost", OPC + ":get_operators_cost")],
     ["OperatorsCost.lines_travel_time", "OperatorsCost.get_cycle_time", "OperatorsCost.get_operators_cost"])

prop("C20", "Infrastructure is paid once per mode and street with service",
     """The length built for a mode is the sum, over the pairs of adjacent city nodes travelled in any direction by at least one of its lines
     with non-zero frequency, of their distance times the d of the mode, each pair counted once whatever the number of lines and directions.
     The infrastructure cost is the sum over modes of that length times c2, and does not depend on the order in which lines or modes were added nor on the
     size of the frequencies, only on which are zero.""",
     ["inputs", "configurations"], "every city, network of one or two modes and frequency vector with any zero pattern",
     "The tests check one network with all frequencies equal.",
     [INF], [("built length", INF + ":get_mode_network_distance"), ("cost", INF + ":get_infrastruture_cost")],
     ["InfrastructureCost.get_mode_network_distance", "InfrastructureCost.get_infrastruture_cost"])

prop("C21", "Capacity constraints measure vehicle load and street frequency exactly",
     """The constraints of a frequency vector are, for each line in network order, its most loaded section minus the vehicle capacity of its
     mode, followed by, for each directed edge of the city and each mode, the sum of the frequencies of the lines of the mode
     that travel it (once for each direction of the line that does) divided by d minus the maximum frequency per line of the mode.
     So they are all <= 0 exactly when no vehicle exceeds its capacity and no line of stops receives more vehicles than it admits.""",
     ["inputs", "configurations"], "every network, OD matrix and frequency vector",
     "The tests check one network with one frequency.",
     [CON, OPT], [("constraints", CON + ":most_loaded_section_constrains, fmax_constrains"), ("assembly", OPT + ":get_constrains, constrains")],
     ["Constrains", "Optimizer.get_constrains", "Optimizer.constrains"])

prop("C22", "The objective is the sum of three costs and a pure function of frequencies",
     """The objective value of a frequency vector is the operators cost plus the infrastructure cost plus the users cost of
     the trips assigned with the strategies fixed at construction, with vehicles sized to the most loaded section.
     It depends only on its argument: any interleaving of evaluations of objective, constraints and reports gives the same
     values as a fresh problem and leaves city, demand, passengers, modes and lines untouched.
     It does not depend on the order in which lines were added, on node numbering, or on a rotation or mirror image of the city.""",
     ["inputs", "histories"], "every problem, frequency vector and history of evaluations",
     "No test evaluates the objective function at all.",
     [OPT], [("objective", OPT + ":VRC, get_k, operators_cost, infrastructure_cost, user_cost, fopt_to_f")],
     ["Optimizer.VRC", "Optimizer.get_constrains"])

prop("C23", "An optimization returns its best feasible iteration or raises",
     """The result returned is, among all the iterations run, the one of least objective value whose frequencies are non-negative,
     whose constraint violation is below 0.001 and that ended by convergence, with frequencies under one vehicle per day set to zero; if there is none, an
     optimizer exception is raised.
     Each iteration minimizes the objective with non-negative frequencies and without violating the constraints, with the strategies that result from the
     frequencies of the previous one, and after the first one iterations are repeated until the total change of frequency is below the tolerance or the
     maximum number of repetitions is reached; the first change is measured from the frequencies given or, if none are given, from those of the modes.
     Frequencies are matched to lines in network order.""",
     ["histories", "fault_sequences", "inputs"], "every sequence of results (converged, failed, infeasible, negative) of the internal optimizer, tolerance and iteration limit",
     "No test runs the optimizer; failures of the solver cannot be provoked with fixed inputs.",
     [OPT], [("outer loop", OPT + ":external_optimization"), ("selection", OPT + ":get_better_result, status_optimization"),
             ("tolerance", OPT + ":external_optimization_tolerance, f_distance"), ("initial frequencies", OPT + ":f0, fopt_to_f")],
     ["Optimizer.network_optimization", "Optimizer.external_optimization", "Optimizer.get_better_result", "Optimizer.status_optimization"])

prop("C24", "Reports agree with the optimized solution they describe",
     """For every solution, the network report gives each line, in order, its frequency, frequency per line of stops, vehicle size (its most loaded
     section), fleet (frequency times cycle time), cycle time in minutes, operators cost per passenger boarded, and the load of every section as a
     fraction of the vehicle size, with the least of them; lines without frequency or without passengers are reported with zeros, not errors.
     The overall report gives costs and times per trip that add up to the objective value, fleet and number of lines per mode in service, and mean vehicle size.
     The text and CSV outputs contain those same values rounded.""",
     ["inputs", "configurations"], "every problem and solution, with circular, express and custom lines, unused lines and zero frequencies",
     "No test covers the reports.",
     [OPT], [("network report", OPT + ":get_network_results, string_network_results, write_file_network_results"),
             ("overall report", OPT + ":get_overall_results, string_overall_results")],
     ["Optimizer.get_network_results", "Optimizer.get_overall_results", "Optimizer.string_*", "Optimizer.write_file_network_results"])

prop("C25", "Plots depend only on what they draw",
     """Plotting a city or a network writes an image to the given file that depends only on the city, the routes and the direction
     requested, not on previous plots, and leaves city and network untouched.
    It shows every node at its place, with its identifier and the colour of its kind or of a stop, every street, and every section
    of the routes and directions requested.
     A plot restricted to a list of routes or to a direction does not change with the other routes or with the other direction, and asking for an unknown route raises.
     The plot of the elementary paths of a strategy shows exactly the nodes and edges of those paths.""",
     ["histories", "configurations"], "every sequence of plots of cities and networks",
     "The tests do not plot.",
     [CITY, NET, HYP], [("city plot", CITY + ":plot"), ("network plot", NET + ":plot"), ("strategy plot", HYP + ":plot")],
     ["Graph.plot", "TransportNetwork.plot", "Hyperpath.plot"])

prop("C26", "Text summaries state what the objects hold",
     """The printable summaries of the extended graph, of a strategy, of the elementary paths, of all OD pairs, of boardings and alightings, and of optimization
     results can be produced for every network and contain each node, label, frequency, path count and passenger figure of the object exactly once with
     its value rounded as shown, without altering the object.""",
     ["inputs", "configurations"], "every network, OD matrix and frequency vector",
     "The tests never produce them (the to-do list of the project says so).",
     [EXT, HYP, ASG, OPT], [("summaries", "__str__, string_hyperpath_graph, string_hyperpaths_OD, string_all_hyperpaths, str_boarding_alighting, string_network_optimization")],
     ["ExtendedGraph.__str__", "Hyperpath.string_*", "Assignment.str_boarding_alighting", "Optimizer.string_network_optimization"])

prop("C27", "Nodes, zones and edges exist only with valid attributes",
     """A node, a zone or an edge is built exactly when all its attributes are valid: identifier and name given, radius and width not negative, angle in [0,360],
     the CBD in zone 0 and the other nodes with a zone; a zone has a periphery and a subcenter of its own identifier, and an edge joins nodes
     of kinds that a city joins (periphery and subcenter, subcenters, subcenter and CBD).
     Otherwise the exception that documents the fault is raised. What is built keeps every attribute as given.
     Polar coordinates of a point are its distance to the origin and its direction in [0,360].""",
     ["inputs"], "every combination of valid and invalid attributes of nodes, of nodes for zones and edges, and every point of the plane",
     "The tests try one invalid value of some attributes.",
     [CITY], [("nodes", CITY + ":Node, CBD, Periphery, Subcenter"), ("zones and edges", CITY + ":Zone, Edge"), ("polar coordinates", CITY + ":get_r_angle")],
     ["Node", "CBD", "Periphery", "Subcenter", "Zone", "Edge"])

prop("C28", "The same problem always gives the same results",
     """Everything that can be obtained from a city, demand, lines, modes and frequencies (files, sequences, strategies, shares, objective, constraints, summaries,
     reports, optimization result) depends only on them: computed twice, in another process, with another hash seed or after other problems, values, texts
     and the order of all lists are the same.""",
     ["inputs", "histories", "configurations"], "every problem, number of repetitions, process, hash seed and previous use of the library",
     "Tests run each case once in one process; dependence on hash order, addresses or leftovers of previous problems does not show.",
     [CITY, NET, HYP, OPT], [("whole library", OPT + ":network_optimization, VRC")], ["all of the public interface"])

prop("C29", "Results do not depend on units nor on how the same lines are written",
     """Measuring the lengths, the time, the money or the passengers of a whole problem in other units changes no decision: objective, cost components,
     users' resources, loads, street constraints and fleets change only by the factors that their units call for. Multiplying together the behavioural values
     of access, waiting and riding time changes nothing. Giving the frequencies of the modes line by line, replacing a line by two equal ones with half of
     its frequency each (where waiting has a cost) or exchanging its two directions leaves the objective, the resources, the load per vehicle and the fleet
     as they were.""",
     ["inputs", "configurations"], "every problem, frequency vector, unit and factor, and subset of lines written again",
     "No test compares two problems; a fixed tolerance, a rounding or a unit mixed up shows only far from the scale of the examples.",
     [CITY, EXT, HYP, ASG, USR, OPC, INF, CON, OPT], [("objective", OPT + ":VRC, get_k, constrains"), ("strategies", HYP + ":build_hyperpath_graph"), ("shares", ASG + ":get_assignment")],
     ["Optimizer.VRC", "Optimizer.get_constrains", "UsersCost.resources_consumer", "OperatorsCost.get_cycle_time"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P))
