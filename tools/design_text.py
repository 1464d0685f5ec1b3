TEXT = {
"P01": "E1+E2. After every step of every explored execution the registries, queues, counts, totals and states of all vehicles are read from the engine and compared with the life cycle automaton and with each other. In random mode every draw (route choice, merging) is a branch. Both engines.",
"P02": "E1. Two oracles per execution: the reference system's trajectory (equality of every log entry) and, independent of it, the car-following law evaluated on the logs alone: speed limit, spacing, order in the lane, position exactly min(free flow, leader - spacing), lane positions.",
"P03": "E1. Two oracles: the reference system, and window counting on the logs: in every window of n steps at most n*capacity*dt plus a burst passes, and a standing queue with room ahead discharges exactly the smallest of the capacities concerned. The `bursts` family was added after a planted change (S03) with unbounded credit survived.",
"P04": "E1. A closed-form timeline (phase as a function of time, plan and offset) is the oracle of the signal record; a law over the logs forbids crossing on red and demands discharge on green; overriding is explored at every step against the reference automaton.",
"P05": "E1+E2. Deterministic families replay the reference system's traces. The `lottery` family enumerates all draws of the model, of the Python engine and of the C++ engine and compares three exact outcome distributions.",
"P06": "E4. The complete observation of a run cut at every combination of stops of the bound (kinds of stop: until, duration, single steps) has to be bit-identical with the uninterrupted run; clock, ongoing flag and states after each piece equal the uninterrupted run at that time.",
"P07": "E4, differential. Both engines execute the same scenario; every public record, query at the listed times and report table are compared, at the end and at every stop. (That both are right, not only equal, is the business of the other checks.)",
"P08": "E3 for threads: see section 1. Every team size x scenario is executed under the controlled runtime; dependent access pairs of concurrent threads would be reversed. `interleaved` explores all interleavings of two simulations advanced in pieces in one process (shared module state, global random state, engine globals).",
"P09": "E1+E2. An independent Dijkstra/Floyd solver recomputes at every step the published distances, next nodes and records from the instantaneous travel times and tolls; preferences are recomputed by the documented update. The `choice` and `noise` families enumerate all draws: exact probability of every route, exact effect of the cost noise.",
"P10": "E1+E2. Every link sequence up to the length bound is enforced (consistent or not): it has to be driven or to raise. All pairs of preferred/avoided link sets. In random mode the restrictions are checked on the route driven in every draw sequence.",
"P11": "Departure steps are recomputed in exact rational arithmetic. Registry after every call of every sequence against a list model. The randomized area demands are decided with all draws enumerated: exact probability of each origin/destination.",
"P12": "E1. The reference system's run defines what the vehicles did; each query of each link is evaluated from its definition on that run, after every step and for every time argument of a grid inside steps, and compared with the engine's answer at that moment.",
"P13": "E1+E4. Records are read at every pair of instants (an earlier read must not spoil a later one: caches) and compared with the reference history.",
"P14": "E1+E4. All tables are recomputed as sums over the reference history at every stop and at the end, and read repeatedly (nothing of an earlier report may survive).",
"P15": "E1. Each cell's flow, density and speed is compared with the exact integral of the reference trajectories clipped to the cell.",
"P16": "E4. Saved at every moment, loaded into worlds of several configurations, then parameters and the complete simulation compared with the directly described scenario; CSV shapes likewise.",
"P17": "E4. Forks the history at every step; original and copies are continued in every order of the list, with disturbances on one side; results bit-identical with the run that was never copied.",
"P18": "E1+E2. The taxi automaton (destination list, requests, vacancy) extends the reference system and runs in lockstep; the matching choice of the implementation is judged by the rule (nearest/within radius/any vacant) and mirrored. All shuffles of the random dispatcher are enumerated.",
"P19": "E1+E4. Every parameter change of a 30-letter alphabet at every step of a grid, and all ordered pairs, mirrored in the reference system.",
"P20": "E4. Every reader at every observation point; the observed run must equal the undisturbed run bit for bit; calls of user functions are recorded and compared with the required sequence under every execution schedule.",
"P21": "Small-scope exhaustive: all digraphs of the bound; brute force over all simple paths, Bellman recursion for time-dependent paths. Random link weights are enumerated as orders, in C++ through the scripted source.",
"P22": "E4. Every sequence of describing operations (31 kinds) up to the depth, in both engines, compared after each operation with a list model; the resulting world is simulated.",
"P23": "E2. Every swap decision of every vehicle on every day is a branch. Each day must equal a fresh simulation with the assigned routes; the admissible moves, costs, gaps, swap counts and travel times are recomputed from that simulation by documented definitions. The C++ adapter's batch functions are exercised through the same solver interface.",
"P24": "E2. `search` explores the adaptive search on tables of objective values in lockstep with a reference transition system of its rules (candidate, acceptance by the observed draw, temperature, weights, best). The solver families run real worlds under controlled sources (`random`, `numpy.random.choice`, the search's own generator): default draw patterns plus every single deviation; each evaluation is recomputed from the simulated world.",
"P25": "E2. The importers run on enumerated maps (GeoDataFrames, OSMnx graphs) given by stand-ins for the download and for `neatnet`. `judge` derives the expected network from the map by the documented rules and matches it one to one with the World's content; then vehicles between all pairs of places move in the imported World and in a World with the same links described directly, which must agree. `merge` checks the contraction of short links against its invariants for all link orders.",
"P26": "E2. matplotlib and Pillow operations are intercepted (no rendering), warnings of swallowed exceptions count as failures. Expected drawings are derived from vehicle logs, link counts and Edie cells (validated by P06/P07), for every function, way of naming the links and option; afterwards the World must be unchanged and an interrupted simulation must continue as without figures.",
 "P27": "E2 with an explicit model. The viewer runs on Qt's offscreen platform; every visible item is painted by a recording painter, dialogs and the menu choice are answered by the harness, and the animation timer is fired by it. The model's state is (time, side, names, highlighted vehicle, playing); every operation is performed on both, and the paint is compared with vehicle logs and Edie cells (validated by P06/P07). All operation words up to a depth are explored from a fresh session; a de Bruijn word covers every word of a length within one session, so that state left over by earlier operations is seen.",
 "P28": "E1/E2. Standard output is captured below both languages. A silent twin of the same scenario is driven step by step; its number and mean speed of running vehicles after each step are the expected progress lines, for every split of the simulation, print mode of each part, interval and timestep length. Printed results are compared with vehicles and trips.",
 "P29": "E1/E2. The solvers run on recorded worlds with their random sources replaced; after every call of solve() the figures are intercepted before rendering and the standard output is captured below both languages. Expected values are recomputed from the vehicles and links of every evaluated world (a generation of the genetic algorithm is represented by any of its best individuals).",
 "P30": "E2. A refused request must be a stuttering step: the settings and records read before and after it are compared, and then the whole outcome (logs, tables, random route choices, colors, following new traffic) with that of a run stopped at the same moments in which the request was not made. All kinds of requests at every statement of the description and at the listed timesteps, and ordered pairs of them.",
}
SEEDNOTES = {}
