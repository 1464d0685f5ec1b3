CPP = "uxsim/trafficpp/traffi.cpp"
H = "uxsim/trafficpp/traffi.h"
PY = "uxsim/uxsim.py"
WR = "uxsim/uxsim_cpp_wrapper.py"
GUI = "uxsim/ResultGUIViewer/ResultGUIViewer.py"
AN = "uxsim/analyzer.py"
DTA = "uxsim/DTAsolvers/DTAsolvers.py"
DTAC = "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py"
MC = "explicit-state exploration of a reference transition system, every trace replayed against both engines"

PROPS = [
 dict(id="P01", title="Every vehicle is conserved and follows the trip life cycle",
  statement="At every moment of a simulation each vehicle is in exactly one place: at home, waiting at its origin, on exactly one link, or finished; states only advance home, wait, run, end/abort, never backwards. The registries of all, living and running vehicles, the link queues, the per-link counts and the report totals always agree with the vehicles' states, no vehicle departs early, is duplicated or lost, and a vehicle ends only at its destination (or aborts only at a dead end).",
  over=["inputs", "histories", "schedules"], qtext="all networks, demands and random draws, at every time step",
  why="Tests check arrival totals of a few fixed networks at the end of the run; losing, duplicating or teleporting a vehicle for one step, in a particular topology or draw sequence, is not visible to them.",
  files=[PY, CPP, WR], state=[("VEHICLES/VEHICLES_LIVING/VEHICLES_RUNNING", "registries of all / not finished / on-road vehicles", PY), ("Link.vehicles", "queue of vehicles on a link", PY), ("generation_queue", "vehicles waiting at the origin", PY)],
  mech=[("Node.generate / Node.transfer / Vehicle.end_trip move a vehicle between places", PY), ("per-link and per-node buffers replayed at the end of the step", CPP)],
  observe=["World.VEHICLES*, Link.vehicles, Vehicle.state after every step", "basic report"],
  technique="exhaustive exploration of networks, departure patterns and random-draw sequences on the real engines with step invariants",
  note="Seven topologies (loops, dead ends, parallel links, unreachable destination) x all departure patterns of the bound in deterministic mode; in random mode every draw sequence up to a deviation bound, in both engines. Bounded network size and horizon."),
 dict(id="P02", title="Vehicles obey the car-following law of the fundamental diagram",
  statement="On a link, vehicles never exceed the free-flow speed, never move backwards, never overtake in the same lane and never come closer than the jam spacing to the vehicle they follow; each moves as far as the law min(free flow, leader position minus jam spacing) allows. Link parameters (capacity, wave speed, critical density) and lane positions follow from free-flow speed, jam density, lanes and reaction time.",
  over=["inputs", "histories"], qtext="all link parameters, platoon sizes, reaction times, departure patterns",
  why="Tests compare aggregate travel times with a tolerance on a handful of links; a violation for one vehicle in one step under a rare pattern is averaged out.",
  files=[PY, CPP], state=[("Vehicle.x, x_next, leader, lane", "position and follower relation", PY)],
  mech=[("Vehicle.carfollow / Vehicle.update", PY), ("Vehicle::car_follow_newell / Vehicle::update", CPP)], observe=["vehicle logs (t, link, x, s, v, lane)"],
  technique=MC, note="All departure patterns of the bound x parameter grid; each trajectory is checked against the law and must equal the reference system's run in both engines (1e-6)."),
 dict(id="P03", title="Link and node capacities are never exceeded and are fully used",
  statement="In every time window the vehicles that leave a link, enter a link or pass a node never exceed the stated link outflow, link inflow and node capacity plus at most one platoon per lane of burst, and a capacity of zero lets nobody pass. As long as a queue stands at a bottleneck and there is room downstream, it discharges at exactly the smallest capacity concerned; automatic node capacities are those implied by the connected links.",
  over=["inputs", "histories"], qtext="all capacity combinations, demand levels, platoon sizes, lanes",
  why="Tests look at average flows of a few bottlenecks; off-by-one-platoon leaks, carry-over of unused capacity or a neglected limit in a combination of limits are below their tolerance.",
  files=[PY, CPP], state=[("capacity_in_remain / capacity_out_remain / flow_capacity_remain", "flow credit of the step", PY)],
  mech=[("credit accumulation in Link.update / Node.flow_capacity_update and consumption in generate/transfer", PY), ("same in C++", CPP)], observe=["cumulative arrival/departure of links"],
  technique=MC, note="Window bound and discharge rate are evaluated on the real engines' cumulative curves, in addition to equality with the reference system; bounded patterns and horizon."),
 dict(id="P04", title="Signals follow their plan and nobody passes on red",
  statement="The phase of every signal at every time follows from its plan and offset: phases in cyclic order, each for its duration; a vehicle enters the next link through a signalized node only while a phase of its link's group is green, and a queued vehicle with free space ahead does pass when green. Overriding a plan during a run takes effect at once and deterministically, keeps the elapsed time unless a reset is requested, and never crashes the simulation.",
  over=["inputs", "histories"], qtext="all plans, offsets, group memberships, override instants and arguments",
  why="Tests check average flow ratios of two fixed plans and never override a plan at every possible instant.",
  files=[PY, CPP, WR], state=[("Node.signal_phase, signal_t, signal_log", "current phase, elapsed time, history", PY)],
  mech=[("Node.signal_control", PY), ("Node::signal_update", CPP), ("override_signal", PY)], observe=["Node.signal_log", "link transfers"],
  technique=MC, note="Closed-form timeline as oracle in addition to the reference system; offsets between 0 and the cycle length; known: an offset larger than the cycle is outside the alphabet (undocumented handling)."),
 dict(id="P05", title="Merging priority, diverging and lane transfer follow the node model",
  statement="When several links compete for a link, the order of passing is determined by the documented merging rule (priority-weighted random choice, largest priority in deterministic mode), each capable link being considered; a vehicle that cannot move blocks those behind it and nobody else, FIFO order on each link and at each origin is preserved. The probability of every outcome equals that of the rule in both engines.",
  over=["inputs", "histories", "schedules"], qtext="all merge priorities, lane counts, arrival patterns and random draws",
  why="Randomized merging is only tested by sampled flow ratios with wide tolerances; FIFO and blocking are not tested at all.",
  files=[PY, CPP], state=[("Node.incoming_vehicles, Link.vehicles, incoming_vehicles_requests", "candidates of the step", PY)],
  mech=[("Node.transfer / Node.generate", PY), ("Node::transfer / Node::generate", CPP)], observe=["vehicle routes and times"],
  technique="exhaustive enumeration of every random draw of both engines, exact outcome distribution compared with the reference model", note="Deterministic grid for conformance plus exact outcome distributions (all draws enumerated, no sampling) on merges and diverges with up to 3 in-links; C++ draws through a substituted random engine."),
 dict(id="P06", title="A simulation may be cut into pieces anywhere without changing it",
  statement="Executing a simulation by any sequence of partial executions (until a time, or for a duration) yields exactly the same vehicles, link records, signals and reports as one uninterrupted execution. After each piece the clock, the finished/ongoing flag, the return value and all vehicle states are those of the uninterrupted run at that time, and executing a finished simulation changes nothing.",
  over=["histories", "configurations"], qtext="all sequences of stops, all engines and modes",
  why="Two tests stop at one fixed period; nothing tries every stop position, mixed kinds of stops, or non-integer time steps.",
  files=[PY, WR, CPP], state=[("World.T, World.TIME, finalized", "clock", PY)],
  mech=[("World.exec_simulation", PY), ("CppWorld.exec_simulation + World::main_loop + departure buckets rebuilt per chunk", WR)], observe=["everything readable after each stop"],
  technique="exhaustive enumeration of execution schedules (cut points) on the real engines, intermediate states checked against the reference system", note="All placements of one and two cuts and all sequences of stop kinds up to the depth bound, five scenario variants, both engines."),
 dict(id="P07", title="The Python and C++ engines compute the same simulation",
  statement="For every scenario both engines support, in deterministic mode, running it with cpp=True gives the same vehicle histories, link records, signal history, query results and report tables as cpp=False, at the end and at every intermediate stop.",
  over=["inputs", "histories"], qtext="all scenarios in the supported subset, every observable",
  why="The equivalence tests compare coarse statistics with tolerances on a few networks; a divergence of one entry of one table in one topology is not compared.",
  files=[PY, CPP, WR, AN], state=[("all simulation state", "", PY)],
  mech=[("C++ engine mirrors the step order of exec_simulation", CPP), ("wrapper exposes C++ data in Python form", WR)], observe=["all public attributes and report tables"],
  technique="exhaustive enumeration of small scenarios (every digraph on three nodes), differential replay on both engines", note="Every digraph on 3 nodes with all-pairs demand, a feature grid and all stop schedules of the bound; single-lane links (multi-lane order of trip ends differs by design and is decided against the reference model)."),
 dict(id="P08", title="Results depend only on scenario and seed, not on threads or other runs",
  statement="For a fixed random seed the C++ engine gives bit-identical results (including reported errors) for every number of threads and every interleaving of these threads. Independently of the engine, repeating a simulation, or advancing other simulations in between in the same process, does not change its results.",
  over=["schedules", "configurations", "histories"], qtext="all thread counts, all thread interleavings, all interleavings of several simulations",
  why="Tests compare one run per thread count under whatever schedule the OS happens to choose.",
  files=[CPP, H, WR, PY], state=[("per-link / per-node RNG streams, buffers and counters", "state exclusive to a parallel iteration", H)],
  mech=[("entity-exclusive parallel stages separated by barriers; serial transfer; buffers reconciled in id order", CPP)], observe=["all observables, compared bitwise"],
  technique="dynamic partial-order exploration of the real engine under a controlled OpenMP scheduler, with dependence tracking of every memory access", note="All barrier-level thread orders up to a deviation bound; within each barrier interval every access is tracked: no dependent pair means all interleavings are equivalent, dependent pairs are reversed by preemption. Uninstrumented library internals are trusted."),
 dict(id="P09", title="Route choice follows the dynamic user optimum of current conditions",
  statement="At every route update the published distances, next nodes and distance records are the cheapest ones under the current instantaneous travel times and tolls (mean over parallel links, closed links excluded), and preferences move toward the cheapest link of each node with the specified weight (per interval or gradually). Each vehicle chooses at every node with probabilities proportional to the current preferences for its destination, with exactly the specified cost noise.",
  over=["inputs", "histories", "schedules"], qtext="all networks, congestion histories, tolls over time, update parameters and random draws",
  why="Route choice is tested by aggregate shares with wide tolerance on one or two networks; wrong preferences at one node, after one update or for one destination are not observable there.",
  files=[PY, CPP, WR], state=[("RouteChoice.dist/next/route_pref/dist_record", "shared route information", PY)],
  mech=[("RouteChoice.route_search_all / homogeneous_DUO_update", PY), ("World::route_search_all / route preference update", CPP)], observe=["World.ROUTECHOICE", "vehicle routes"],
  technique="explicit-state conformance to a reference route-choice model and exhaustive enumeration of all random draws of both engines", note="Digraphs on four nodes, toll/closure/parallel-link grid after every step, exact outcome probabilities with all draws enumerated (noise on a two-level grid)."),
 dict(id="P10", title="Enforced routes and link restrictions of vehicles are obeyed",
  statement="A vehicle with an enforced route travels exactly the links of that route in order, or the simulation raises an error if the route cannot be followed; preferred links are always chosen where available, avoided links are never entered, and acyclic routing never revisits a node while an alternative exists. Dead ends abort the trip or keep the vehicle waiting according to trip_abort. Both engines decide alike.",
  over=["inputs", "schedules"], qtext="all link sequences as routes, all preference/avoidance sets, all networks and random draws",
  why="Tests enforce a few consistent routes; inconsistent routes, combined restrictions and cyclic networks with random choices are untested.",
  files=[PY, CPP, WR], state=[("Vehicle.specified_route, links_prefer, links_avoid", "restrictions", PY)],
  mech=[("Vehicle.route_next_link_choice, Node.generate", PY), ("Vehicle::route_next_link_choice, Node::generate", CPP)], observe=["Vehicle.traveled_route", "raised errors"],
  technique=MC + "; all random draws enumerated", note="All link sequences up to the bound as enforced route, all pairs of restriction sets, all digraphs of the listed sizes."),
 dict(id="P11", title="Demand specifications create exactly the requested vehicles",
  statement="Every demand call creates exactly the specified amount of traffic (rounded down to whole platoons), at the time steps at which the cumulative demand is reached, with the given origins, destinations and attributes; area and node-set demands use only usable nodes, never a trip to its own origin (new variants), with uniform independent choice. Every vehicle stays registered under its unique name, name conflicts are rejected or renamed, and vehicles added while a simulation is running depart at their time step and behave like any other vehicle.",
  over=["inputs", "histories", "schedules"], qtext="all demand windows, rates, platoon sizes, call sequences and random draws",
  why="Tests create a handful of demands whose numbers are exactly representable; lost platoons by rounding, name collisions and self-trips appear for other inputs or draws only.",
  files=[PY, WR, CPP], state=[("World.VEHICLES", "registry by name", PY)],
  mech=[("adddemand* / addVehicle / Vehicle.__init__", PY), ("CppWorld.addVehicle/adddemand*, _register_new_cpp_vehicles", WR), ("add_demand", CPP)], observe=["World.VEHICLES", "departure times"],
  technique="exhaustive enumeration of demand inputs, call sequences and random draws on both engines against exact rational arithmetic and the reference system", note="Grids of windows, rates and step sizes; all call sequences up to depth 3 (thorough 4); all draws of the randomized variants; insertions at every second step of a run."),
 dict(id="P12", title="Link state queries agree with what vehicles actually did",
  statement="At every moment of a run, counts, densities, flows, speeds, queue lengths, inflows and travel times reported by a link (current or for any time) equal their definitions evaluated on the vehicles' movements so far, in both engines; the actual travel time of an entry time is what the vehicles that entered then really needed.",
  over=["inputs", "histories"], qtext="all scenarios, query times and moments of querying",
  why="Queries are tested at the end of a run for a few times with tolerance; off-by-one time indexing or stale values while a simulation is ongoing are not noticed.",
  files=[PY, WR, CPP], state=[("Link.cum_arrival, cum_departure, traveltime_instant, traveltime_actual", "link records", PY)],
  mech=[("Link queries", PY), ("CppLink queries", WR)], observe=["Link.*_count, *_travel_time, average_*, speed, density, flow, num_vehicles*"],
  technique=MC, note="Every query after every step and after every single stop, six parameter variants; query instants inside time steps."),
 dict(id="P13", title="Vehicle records tell what each vehicle did, whenever they are read",
  statement="A vehicle's logs (time, state, position, speed, lane), its recorded route and travelled links, its position at any time, its traveled distance and the vehicle, trip and GPS tables report, in both engines, exactly the movements the vehicle made so far. It does not matter when, how often or in which order they are read during a run; coarser logging intervals and disabled logging only thin the documented records out.",
  over=["inputs", "histories"], qtext="all scenarios, all moments and orders of reading, all logging intervals",
  why="Tests read records once after the run ended; stale caches, records of vehicles that have not departed or were added during the run, and reduced logging are not sampled.",
  files=[PY, WR, AN, CPP], state=[("Vehicle.log_*, traveled_route, log_t_link, distance_traveled", "vehicle records", PY), ("log caches of CppVehicle", "converted logs", WR)],
  mech=[("Vehicle.record_log", PY), ("build_full_log / lazily converted logs", WR), ("vehicles_to_pandas, vehicle_trip_to_pandas, log_vehicles_to_pandas, gps_like_log_to_pandas", AN)],
  observe=["Vehicle.log_*, traveled_route(), get_xy_coords(t)", "vehicle tables"],
  technique=MC, note="All sets of read moments up to the bound during runs of a grid of scenarios; logging interval 1..3 and disabled; vehicles added at every step."),
 dict(id="P14", title="Report tables summarize exactly what happened so far",
  statement="The basic, OD, link, cumulative-count, area and vehicle-group statistics equal their definitions evaluated on the vehicles' movements up to the moment of the report, at every moment of a run and at its end, in both engines: counts, total and average travel times, delays, free-flow times, shortest distances, averages over completed trips, and nothing of an earlier report survives in a later one.",
  over=["inputs", "histories"], qtext="all networks, demands, areas and vehicle groups, every moment of reporting",
  why="Tests print tables or compare one or two entries after complete runs; ODs without arrivals, parallel links, ongoing runs and repeated reports are not covered.",
  files=[AN, PY], state=[("Analyzer.od_*, trips_all, link statistics", "accumulated statistics", AN)],
  mech=[("Analyzer.od_analysis, link_analysis_coarse, basic_analysis", AN), ("*_to_pandas", AN)], observe=["basic_to_pandas, od_to_pandas, link_to_pandas, link_cumulative_to_pandas, area_to_pandas, vehicle_groups_to_pandas, mfd"],
  technique=MC, note="Every digraph on three nodes with all-pairs demand plus parallel-link and line networks; reports at the bound's stops and at the end."),
 dict(id="P15", title="Aggregated traffic states are exactly Edie's definitions",
  statement="Flow, density and speed of every link, cell and time interval, and the network averages (MFD) of any set of links, equal the integrals of travelled distance and time over all vehicle trajectories in that cell, divided by its area: nothing is lost or counted twice at cell, interval or link boundaries, whatever cell sizes, link lengths, lanes and step widths are chosen.",
  over=["inputs"], qtext="all trajectories, cell sizes, link lengths, logging and step widths",
  why="Tests check one homogeneous state with tolerance; boundary cells, links that are not multiples of the cell length, and stopped vehicles are not compared to an integral.",
  files=[AN], state=[("Link.k_mat, q_mat, v_mat, tn_mat, dn_mat", "Edie's states", AN)], mech=[("Analyzer.compute_edie_state, macroscopic_fundamental_diagram", AN), ("link_traffic_state_to_pandas, mfd_to_pandas", AN)],
  observe=["link_traffic_state_to_pandas", "mfd_to_pandas", "Link.k_mat/q_mat/v_mat"],
  technique=MC, note="All departure patterns of the bound x grid of cell sizes and intervals. Instants where a vehicle stands exactly on a cell border are ambiguous by rounding and left out (counted)."),
 dict(id="P16", title="Saved scenarios are the same scenarios when loaded",
  statement="A scenario written with save_scenario (at any moment: before, during or after a run) and read with load_scenario, or described in CSV files, is the scenario it was made from: same nodes, links and demand with all user-specified parameters, values left unspecified are determined anew by the loading world, and simulating it gives exactly the results of the original description.",
  over=["inputs", "histories"], qtext="all networks, parameters, demand definitions and moments of saving",
  why="Tests save one network with default parameters and compare totals; a single lost parameter, a frozen derived value or a changed order of demands is invisible to them.",
  files=["uxsim/scenario_reader_writer.py", PY, WR], state=[("World.demand_info", "recorded demand definitions", PY), ("scenario file", "network and demand arguments", "uxsim/scenario_reader_writer.py")],
  mech=[("demand_info_record, instance_to_arg_dict, save_scenario, load_scenario", "uxsim/scenario_reader_writer.py"), ("load_scenario_from_csv", PY), ("load_scenario_from_csv", WR)], observe=["attributes of loaded objects", "complete results of the loaded scenario"],
  technique="exhaustive enumeration of feature, demand-sequence, save-moment and target-world combinations on the real code, save/load history replayed against direct construction",
  note="19 parameter features (pairs in thorough) x 4 moments of saving x 3 target worlds, all demand definition sequences up to length 2 (3), all CSV shapes in both engines. Vehicles added one by one are not part of a scenario file (documented: nodes, links, demand)."),
 dict(id="P17", title="A copied or saved simulation continues exactly like the original",
  statement="World.copy(), and World.save() followed by unpickling, at any moment (defined, finalized, after any step, finished) give a World in the same state; original and copy, continued in any order or alternately, each produce exactly the results of a run that was never copied, including random draws, and nothing done to one of them shows in the other.",
  over=["histories", "schedules"], qtext="all scenarios, all copy moments, all continuation orders and later changes",
  why="Tests copy once at one time of one scenario and compare a travel time; shared state or state lost at a particular moment is not explored.",
  files=[PY, AN], state=[("World and everything it refers to", "", PY)], mech=[("World.copy, World.save", PY)], observe=["all public state right after copying", "all results at the end"],
  technique="exhaustive exploration of copy points and continuation orders (a fork at every step of the history) on the real engine",
  note="Every 4th step (thorough: every step) of six scenario variants, deterministic and random; copies of copies; disturbances of demand, links, signals, routes, random state on either side."),
 dict(id="P18", title="Taxis serve destinations and trip requests in order, each exactly once",
  statement="A taxi visits its destinations in the order given by add_dest/add_dests, stays on the network while vacant, and drives like any other vehicle. With any dispatcher every trip request is assigned at most once, to a vacant taxi that satisfies the matching rule (nearest, within radius), is picked up at its origin not before it was requested and assigned, dropped off at its destination afterwards, and its recorded times, taxi and the reported statistics are those of what happened; requests never vanish or repeat.",
  over=["histories", "inputs", "schedules"], qtext="all request sequences, taxi fleets, assignment orders, dispatch times and random draws",
  why="Tests run one random fleet and compare average waiting times with tolerance; a lost, swapped or doubly served request in a particular order is invisible.",
  files=["uxsim/TaxiHandler/TaxiHandler.py", PY], state=[("Vehicle.dest_list, TaxiHandler.trip_requests/vacant taxis", "destinations to visit, open requests", PY)],
  mech=[("assign_taxi, assign_trip_request_to_taxi, Vehicle.add_dest, node_event", "uxsim/TaxiHandler/TaxiHandler.py")], observe=["vehicle logs, trip request times, handler lists"],
  technique="explicit-state exploration of a taxi-extended reference transition system in lockstep with the implementation; random choices enumerated",
  note="Four networks, up to three taxis and four requests, all assignment orders at several times, dispatch intervals, random matching over all shuffles of a bound. Python engine (C++ mode refuses taxis)."),
 dict(id="P19", title="Parameters changed during a simulation govern what follows, not the past",
  statement="When free-flow speed, jam density, in/outflow capacity, merge priority, signal group, node capacity, toll or a vehicle's specified, preferred or avoided links are changed while the simulation is paused (or before it), all later motion, capacities, travel times and route choices follow the new value (zero included) in both engines, derived parameters are updated, and nothing that already happened changes.",
  over=["histories", "inputs"], qtext="all changes, times of change and pairs of changes",
  why="Tests change one parameter once in one engine and look at the aggregated flow; changes with no effect, late effect or stale derived values of most setters are never compared step by step.",
  files=[PY, WR, CPP], state=[("Link and Node parameters and what is derived from them", "", PY)], mech=[("Link.change_*, attribute setters", PY), ("CppLink/CppNode properties", WR)], observe=["all vehicle, link and signal records of the run"],
  technique=MC, note="Every change of a 30-letter alphabet on 6 networks at a grid of steps, all ordered pairs; both engines in lockstep with the reference system."),
 dict(id="P20", title="Observing a simulation does not change it, and shows the current state",
  statement="Reading any public state, table or statistic during a simulation, from user functions of the world, nodes, links or vehicles, or at pauses between executions, and any display, logging, aggregation or memory option, leaves every vehicle, link and report result unchanged. User functions are called exactly once per timestep and object in the same order, and see the time and states that belong to that step, regardless of how the execution is split.",
  over=["histories", "schedules"], qtext="all observers, observation times, execution splits and options",
  why="Tests never compare an observed with an unobserved run; caches and clocks that go stale only when read at a certain moment stay hidden.",
  files=[PY, WR, AN], state=[("cached link states, World.TIME", "", PY)], mech=[("Link.num_vehicles_t etc., World.exec_simulation, simulation_main loop", PY)], observe=["all results of observed and undisturbed runs; calls of user functions"],
  technique="exhaustive exploration of observation points and execution schedules on the real engines, every run compared with the undisturbed run",
  note="Every reader in every kind of user function and at every pause of a grid (all pairs with all readers), options and combinations, all execution schedules up to three calls; C++ mode: pauses and options (it has no user functions)."),
 dict(id="P21", title="Route and shortest-path utilities return exactly what they promise",
  statement="On every network and for every node pair: enumerate_k_shortest_routes (static or at a time) returns the k cheapest loopless routes with their true costs, cheapest first, without duplicates; enumerate_k_random_routes returns valid distinct routes, the free-flow shortest one first; shortest distances, instantaneous travel times (also at a past time) and time-dependent shortest paths equal the true minima; grid networks have exactly the described nodes and links; congestion externalities agree between engines and are zero in free flow.",
  over=["inputs"], qtext="all networks, node pairs, k, query times and random weights",
  why="Tests query one or two pairs of one network; parallel links, unreachable pairs, off-interval query times and k beyond the number of routes are not covered.",
  files=["uxsim/Utilities/Utilities.py", CPP], state=[("W.TSN_costs/TSN_paths, ROUTECHOICE.dist_record", "", "uxsim/Utilities/Utilities.py")], mech=[("enumerate_k_*, get_shortest_path_*, construct_time_space_network, generate_grid_network, estimate_congestion_externality_*", "uxsim/Utilities/Utilities.py")], observe=["returned routes, costs, matrices"],
  technique="exhaustive enumeration of bounded networks, queries and random-weight orders against brute-force enumeration of all simple paths and label-correcting search",
  note="All digraphs on three nodes (also with doubled links), on four nodes up to six links; all node pairs; all orders of random link weights in both engines."),
 dict(id="P22", title="Unique names: references resolve to exactly what they name or are rejected",
  statement="After any sequence of calls that describe a world, each node, link and vehicle is registered exactly once under a unique name, connected to exactly the nodes it was defined with, automatically named or renamed when asked to (renaming of nodes is refused in C++ mode), and found by its name or object; objects of another World resolve by name. Calls with taken or unknown names are rejected and leave no trace. get_nearest_node and get_nodes_in_area follow their definition, routes are accepted exactly if consecutive, and their length, items, equality and actual travel time are those of their links.",
  over=["histories", "inputs"], qtext="all sequences of describing operations, references, positions and link sequences",
  why="Tests build well-formed worlds and try one duplicate name in one engine; combinations of renaming, unknown or foreign references and partial failures are not tried.",
  files=[PY, WR], state=[("NODES, LINKS, VEHICLES and their name dictionaries, inlinks/outlinks", "", PY)], mech=[("addNode/addLink/addVehicle/adddemand*, get_node/get_link, defRoute", PY), ("the same in CppWorld", WR)], observe=["registries, references, accepted and rejected calls, simulated trips"],
  technique="exhaustive exploration of operation sequences on both engines, compared after every operation with a reference model",
  note="31 operations, all sequences of depth 2 and (after two nodes) 3, core operations to depth 4 (thorough 5); every world is then simulated."),
 dict(id="P23", title="Day-to-day assignment solvers perform exactly the dynamics they document",
  statement="Every day SolverDUE and SolverDSO_D2D (both engines) report is a real simulation in which each vehicle that finished the day before drives the route assigned to it. Between days a vehicle keeps its route or moves to the cheapest route of its choice set, measured by actual travel time at its departure plus tolls (DUE) or congestion externality (DSO), only if it is strictly cheaper; each vehicle decides by itself with swap_prob, or as part of a sample of swap_num. Vehicles with unfinished trips get no route; a route outside given route_sets is replaced by the first of the set. Numbers of swaps and potential swaps, cost gaps, total travel times and logs are those of the day. W_sol is the last day (DUE), or the completed day of least average travel time (DSO), with unaltered results.",
  over=["inputs", "histories"], qtext="all networks, demands, route sets, and swap decisions of all vehicles on all days",
  why="Tests run one random history per network and look at averages of the last days; no history of decisions is enumerated and no day is recomputed.",
  files=["uxsim/DTAsolvers/DTAsolvers.py", "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py", "uxsim/trafficpp/dta_solver.cpp"], state=[("routes_specified, route sets, cached analyzer of the C++ solvers", "", "uxsim/DTAsolvers/DTAsolvers_cpp_adapter.py")], mech=[("SolverDUE.solve, SolverDSO_D2D.solve", "uxsim/DTAsolvers/DTAsolvers.py"), ("dta_route_swap_due, dta_route_swap_dso, dta_batch_enforce_routes", "uxsim/trafficpp/dta_solver.cpp")], observe=["worlds of all days, n_swaps, potential_swaps, t_gaps, ttts, route_log, cost_log, dfs_link, W_sol and its tables"],
  technique="exhaustive exploration of the swap decisions of all vehicles on all days under a controlled random source (Python and C++), every day recomputed from costs and compared with a fresh simulation",
  note="3-8 vehicles, 3 networks with 3 routes per OD pair: every combination of decisions over 2 or 3 days, up to two deviating decisions over 4 days (thorough 3 over 5); switching tolls, fractional timesteps, unfinished trips, samples."),
 dict(id="P24", title="Metaheuristic optimum solvers evaluate honestly and return the best found",
  statement="SolverDSO_GA and SolverDSO_ALNS (worlds of both engines) start from the given initial solution (vehicles travelling outside of their choice set from its fastest route) or a DUO simulation, evaluate exactly the stated number of real simulations in which every vehicle travels a route of its choice set, with objective total travel time plus the simulation duration for each unfinished trip, and return the best world evaluated (GA: of the last generation), whose reports and logs agree with it. The elite survives; without mutation every choice has an ancestor. The adaptive search accepts a worse candidate exactly with probability exp(-worsening/temperature), moves only vehicles its operator names (random, consecutive, early/late departing, on the most delayed links; to another random or the least total cost route), cools geometrically, rewards operators as specified and never loses the best solution, for minimization and maximization.",
  over=["inputs", "histories"], qtext="all initial solutions, objective values, operators, parameters and random decisions",
  why="Tests run one random search per solver and check that the total travel time does not get worse by a wide margin; no decision of the search is recomputed, unfinished trips and initial solutions outside of the sets never occur.",
  files=["uxsim/DTAsolvers/DTAsolvers.py", "uxsim/DTAsolvers/ALNS.py"], state=[("ALNSState, population", "current and best solutions, weights, temperature", "uxsim/DTAsolvers/ALNS.py")], mech=[("SolverDSO_GA.solve, SolverDSO_ALNS.solve", "uxsim/DTAsolvers/DTAsolvers.py"), ("init_alns, auto_step, run_auto, finalize", "uxsim/DTAsolvers/ALNS.py")], observe=["simulated worlds, returned solution, step log, solver logs"],
  technique="exhaustive exploration of the heuristics' decisions under a controlled random source within deviation bounds, every step compared with a reference transition system of the search",
  note="Search: all orders of objective values on 2-3 variables, 3-4 steps, all draws up to 3-5 deviations. Solvers: 4 networks, 3-5 vehicles, 3-5 evaluations after the start, several default patterns of draws and single deviations."),
 dict(id="P25", title="Imported road maps become exactly the network they describe",
  statement="OSMImporter2.osm_network_to_World and OSMImporter (import_osm_data, osm_network_postprocessing, osm_network_to_World) request the given area and add to the World exactly the roads of the obtained map: one link per permitted direction (no road lost or doubled, also with parallel, curved and two-way roads, with or without simplification) between one node per end point, of the recorded length, with the recorded or, if missing, unreadable or overridden, the default speed and number of lanes of its road type (lanes of two-way roads are shared between the directions; an unknown type is that of most of the roads leading to or on from it), and the stated node capacity. Names already taken in the World are avoided without touching its content. Merging of near nodes leaves no short link, no dangling or duplicate link, and keeps every remaining road and connection; traffic moves as in the same network described directly.",
  over=["inputs"], qtext="all maps, road attributes, options and previous contents of the World",
  why="The tests download a map of one place (and cannot run without network); combinations of missing and malformed attributes, parallel roads or prior contents do not occur reliably in it.",
  files=["uxsim/OSMImporter2/OSMImporter2.py", "uxsim/OSMImporter/OSMImporter.py"], state=[], mech=[("osm_network_to_World, _extract_network_from_geodataframe, _attach_osm_nodes_links", "uxsim/OSMImporter2/OSMImporter2.py"), ("import_osm_data, osm_network_postprocessing, osm_network_to_World", "uxsim/OSMImporter/OSMImporter.py")], observe=["nodes and links of the World, simulated trips"],
  technique="exhaustive enumeration of small road maps, attribute combinations and options in place of downloads, the World compared with the map and traffic on it with that on the same network described directly",
  note="All networks of up to three roads on four places with all directions; 11 road types x 7 recorded speeds x 9 recorded lanes x options; all short-link networks of four places with up to four (thorough five) links. Download and geometric simplification are stand-ins."),
 dict(id="P26", title="Figures and animations draw exactly what was simulated",
  statement="Every analysis figure (time-space diagrams of trajectories and density, cumulative curves, macroscopic fundamental diagram, network maps of a time and of the average, vehicle logs, network shape) and animation can be drawn for every documented way of naming links and every display option, of finished and interrupted simulations, with any timestep length, and shows exactly the recorded simulation: each stay of each vehicle on the links asked for, red signal times, cumulative counts and travel times per timestep, colour and width of each link or cell for its speed/delay and density/flow at that time, positions of running vehicles in each frame, all nodes and labels, on the stated side of the road. Drawing has no influence on the simulation.",
  over=["inputs", "histories"], qtext="all scenarios, interruption times, links, times and display options",
  why="The tests only call the figures; errors inside are turned into warnings, and no test looks at what is drawn.",
  files=[AN, PY, WR], state=[("flag_edie_state_computed, flag_trajectory_computed", "", AN)], mech=[("time_space_diagram_*, cumulative_curves, macroscopic_fundamental_diagram, network, network_average, network_pillow, network_anim, network_fancy, plot_vehicle(s)_log", AN), ("show_network", PY)], observe=["drawn lines, colours, widths, images, texts and frames"],
  technique="exhaustive enumeration of drawing functions, arguments, networks, timestep lengths and interruption times; intercepted drawing operations compared with the recorded simulation",
  note="Five network geometries x 8 timestep/horizon settings x demand patterns x both engines x finished or interrupted at two times. Figures are intercepted before rendering."),
 dict(id="P27", title="The result viewer shows the selected time and vehicle after any operations",
  statement="After any sequence of user operations on the interactive result viewer (time slider, play, stop, animation ticks, highlighting a vehicle, an unknown vehicle or cancelling, link curve direction, display of names), the viewer shows exactly: the selected time and the whole period in the label, every link between its nodes on the selected side with the recorded speed (colour) and density (width) of each cell in the selected interval, exactly the recorded positions of the one highlighted vehicle within that interval, and the names if enabled; an unknown vehicle only causes a warning. The tables show exactly the respective result tables, the link menu draws the figures of that link, the CSV export writes the result tables. This holds for simulations and links of any length, including ones shorter than the aggregation interval, which must not crash the viewer, and viewing does not change the results.",
  over=["inputs", "histories"], qtext="all sequences of operations, scenarios, timestep lengths and both engines",
  why="The test only opens a window once; the state after operation sequences (stale dots, wrong times) is never looked at.",
  files=[GUI, AN], state=[("MainWindow: tmax, dt, playing, curve_direction, show_names", "", GUI), ("GraphWidget.vehicle_items, vehicle_list; EdgeItem.t", "", GUI)], mech=[("EdgeItem.paint, GraphWidget.set_t, MainWindow.update_graph, update_t, show_vehicle_by_id", GUI), ("output_data", AN)], observe=["painted segments, dots, texts, slider, label, buttons, tables, exported files"],
  technique="exhaustive enumeration of operation sequences on the real viewer (all sequences up to a depth from a fresh session, and one session containing every sequence of a length), compared after every operation with an explicit reference model",
  note="13 operations; depth 2-3 (thorough 3-4) on four networks x 6 timestep/horizon settings x both engines, finished or interrupted."),
 dict(id="P28", title="Console output states the actual simulation, when and only when asked for",
  statement="With output enabled, both engines print the scenario settings and the table head once at the start, a progress line for the start, for every progress interval and for the end of the simulation (if progress is enabled), and the finishing message; each progress line states the time, the number of vehicles on the links and their average speed at that moment, for any splitting of the simulation, platoon size and timestep length. With output disabled nothing is printed, and changing the print mode between two parts of a simulation takes effect from there on. The printed results (completed trips, travel times, delays, delay ratio, distance; taxi statistics) are those of the simulation; forcing the results prints them exactly once. Printing does not change the simulation.",
  over=["inputs", "histories"], qtext="all scenarios, splits, print modes, progress intervals and both engines",
  why="Tests do not read the console output; the C++ engine prints by its own code.",
  files=[PY, WR, AN, CPP, "uxsim/TaxiHandler/TaxiHandler.py"], state=[("print_mode, show_progress, show_progress_deltat_timestep", "", PY)], mech=[("show_simulation_progress, print_simple_stats", AN), ("print_scenario_stats, change_print_mode", PY), ("print_progress_line", CPP)], observe=["standard output"],
  technique="exhaustive enumeration of splits, print modes of each part, progress intervals and demand patterns; each printed line compared with the state of a silent simulation driven step by step",
  note="Two networks x 5 timestep/platoon settings x demand patterns x splits with up to two cuts x all print modes x 4 progress intervals, both engines."),
 dict(id="P29", title="Assignment solvers report the assignments evaluated in that call",
  statement="For every number of iterations and every call of solve() of the user-equilibrium, system-optimum, genetic and neighbourhood-search solvers (Python and C++), also when the same solver object is used repeatedly: the logs have one entry per iteration of that call, and the returned solution is one of the assignments evaluated in it. The convergence figure shows the total travel time, route changes and cost gap of each iteration (neighbourhood search: each evaluation and each new best one); the link figure shows each link's volume and average travel time in each iteration; the vehicle figure shows, for every choice of origin and destination, the mean and standard deviation of each matching vehicle's travel time over the second half of the iterations at its departure time (system optimum: its travel time in the solution), leaving out unfinished trips. The printed progress lines and the summary state the same values, and progress is printed only if asked for.",
  over=["inputs", "histories"], qtext="all scenarios, numbers of iterations, repeated calls, random decisions, origins and destinations",
  why="The tests call the figures at most once on one scenario without looking at them, and never reuse a solver.",
  files=[DTA, DTAC], state=[("ttts, n_swaps, potential_swaps, t_gaps, route_log, cost_log, dfs_link, W_sol", "", DTA)], mech=[("plot_convergence, plot_link_stats, plot_vehicle_stats, print_solution_process", DTA), ("solve", DTAC)], observe=["drawn curves, printed lines, logs, solution"],
  technique="exhaustive enumeration of solvers, networks, numbers of iterations, repeated calls and figure arguments with controlled random decisions; intercepted figures and text compared with values recomputed from each evaluated simulation",
  note="Three networks x 3 timestep/platoon settings x both engines; fixed patterns of draws and every single deviation from them."),
 dict(id="P30", title="Refused requests leave no trace, at any moment of a simulation",
  statement="In both engines, a request that cannot be fulfilled raises an error (or, for negative free-flow speeds and jam densities, is ignored with a warning) at any moment of describing a scenario, running it and after its end, and changes nothing: links with a non-integer number of lanes, without speed, density or lanes, from or to unknown nodes or with taken names; vehicles and demands with taken names, unknown nodes or links, or without any possible origin-destination pair; signal plans whose groups do not match the phases or contain links that do not enter the node; routes and link restrictions with unknown links or gaps; further destinations of vehicles that are not taxis; executions of a non-positive duration; functions unavailable in C++ mode. After a refused request, the scenario settings, the past records, the random decisions and everything that follows, also new traffic and signal plans, are those of the simulation in which it was not made, and the scenario can still be saved and loaded.",
  over=["inputs", "schedules", "histories"], qtext="all refused requests at all moments, pairs of them, both engines",
  why="Tests check at most that a single call raises, before the simulation, and never look at the world afterwards; half-applied changes and consumed random numbers appear only in what follows.",
  files=[PY, WR, "uxsim/scenario_reader_writer.py"], state=[("signal, signal_group, u, kappa, rng, VEHICLES, demand_info", "", PY)], mech=[("override_signal, addVehicle, adddemand*, change_*, enforce_route, exec_simulation", PY), ("CppLink, CppNode, addVehicle", WR)], observe=["exceptions, warnings, settings, records, results"],
  technique="exhaustive enumeration of refused requests and pairs of them at every moment of describing and running scenarios on the real engines, each execution compared with the one without the request (stutter equivalence)",
  note="About 55 kinds of requests x every statement of the description x listed timesteps x deterministic and random worlds, both engines."),
]
NOT_APPLICABLE = []
