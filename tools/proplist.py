def define(g):
    prop, SE, OT, CT, RM, CM, PB, LIB, RML, RP, NA = (g[k] for k in "prop SE OT CT RM CM PB LIB RML RP NA".split())
    TREE = "stateless exploration of the real engine: every input sequence up to a bound (fork tree), every frame compared with an executable reference model"
    ENUM = "exhaustive enumeration of a bounded case space on the real code, every case compared with an independent reference model"

    prop("C01", "Storyboard elements follow the standby/running/complete life cycle",
         "Whatever the order in which triggers become true, every story, act, maneuver group, maneuver, event and action moves only along the "
         "OpenSCENARIO life cycle (standby, running, complete), starts exactly when its trigger allows and its parent runs, ends exactly when its own "
         "children have ended or a stop trigger or execution count says so, and reports each change once, in the frame it happens. A stop trigger of an act or of the storyboard ends "
         "everything below it and nothing below it ever runs again.",
         ["histories", "configurations"],
         "for every storyboard of the bounded shapes and every sequence of trigger inputs per frame up to the bound",
         "The unit tests replay a few fixed scenarios; the order and coincidence of trigger changes, stop triggers and execution counts is a combinatorial space they never enumerate.",
         [SE + "Storyboard.cpp", SE + "StoryboardElement.cpp", SE + "StoryboardElement.hpp", SE + "ScenarioEngine.cpp"],
         [("element state machine", SE + "StoryboardElement.cpp"), ("event and storyboard stepping", SE + "Storyboard.cpp")],
         "d_story", TREE,
         "Bounded: the shapes, execution counts and horizons listed in the evidence. Trusts the reference model in src/story.hpp, which is bound to the code by comparing every frame of every execution.",
         ["state change callbacks of the C API"])
    prop("C02", "Event priorities: override, skip and parallel",
         "When an event starts, an override event ends every other running event of its maneuver, a skip event does not start while another event of the maneuver runs, "
         "and a parallel event disturbs no other event. This holds for every combination of priorities, durations, repetitions and start orders, including starts in the same frame.",
         ["histories", "configurations"],
         "for every combination of event priorities and durations and every sequence of trigger subsets up to the bound",
         "Tests cover one scenario per priority; the result depends on the order and coincidence of triggers.",
         [SE + "Storyboard.cpp", SE + "StoryboardElement.cpp"],
         [("event start", SE + "Storyboard.cpp"), ("maneuver stepping", SE + "Storyboard.cpp")],
         "d_story", TREE,
         "Bounded: 2-3 events per maneuver, all priority combinations, horizons in the evidence.",
         ["state change callbacks of the C API"])
    prop("C05", "A new action replaces exactly the running actions it conflicts with",
         "An action that starts on an entity ends every action already running on that entity that controls an overlapping domain (longitudinal, lateral, a shared light), "
         "including initial actions, and leaves all other actions, other domains and other entities untouched. At no time do two actions of the same entity and domain run together.",
         ["histories", "configurations"],
         "for every ordered pair of action kinds, storyboard shape, entity assignment and trigger order within the bound",
         "Tests exercise a handful of pairs; conflicts depend on kind, order, shape and entity.",
         [SE + "Storyboard.cpp", OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp", SE + "ScenarioEngine.cpp"],
         [("conflict resolution at event start", SE + "Storyboard.cpp"), ("domains of actions", OT + "OSCPrivateAction.hpp")],
         "d_story", TREE,
         "Bounded: 14 action kinds, all ordered pairs, horizons in the evidence.",
         ["state change callbacks of the C API"])
    prop("C03", "Trigger logic: edges, delays, AND within groups, OR between groups",
         "A trigger is true exactly when, in at least one condition group, every condition is true, where each condition is judged on its own history: rising, falling and "
         "risingOrFalling react to a change of the underlying value since the previous frame, none to the value itself, and a delayed condition has the outcome it would have had 'delay' "
         "seconds earlier. The outcome never depends on the order of conditions or groups or on the values of the other conditions in earlier frames.",
         ["histories", "configurations"],
         "for every combination of edge, delay, grouping and place of the trigger and every history of the underlying values up to the bound",
         "Edge and delay are functions of whole histories; tests sample a few.",
         [OT + "OSCCondition.cpp", OT + "OSCCondition.hpp", SE + "StoryboardElement.cpp"],
         [("condition edge and delay", OT + "OSCCondition.cpp"), ("group and trigger evaluation", OT + "OSCCondition.cpp")],
         "d_cond", TREE, "Bounded: horizons and combinations in the evidence; fixed frame time.", ["state change callbacks of the C API"])
    prop("C04", "Value, time and element-state conditions match their documented meaning",
         "Variable, parameter and simulation time conditions are true exactly when the comparison with the documented rule (equalTo, greaterThan, lessThan, greaterOrEqual, lessOrEqual, notEqualTo) "
         "holds for the current value in its declared type. A storyboard element state condition is true exactly in frames where the referenced element is in the "
         "given state or has just made the given transition, whichever element type it is and wherever the observer is placed.",
         ["inputs", "histories"],
         "for every type, rule and value in the bound; for every element type, state and history of the observed element up to the bound",
         "The comparison depends on type, rule and ordering of two values; element states depend on whole histories.",
         [OT + "OSCCondition.cpp", OT + "OSCCondition.hpp", SE + "Parameters.cpp"],
         [("value conditions", OT + "OSCCondition.cpp"), ("state condition", OT + "OSCCondition.cpp")],
         "d_cond", TREE, "Bounded: values and horizons in the evidence; fixed frame time.", ["state change callbacks of the C API"])
    prop("C06", "Entity conditions decide by geometry, per triggering entity",
         "Speed, relative speed, acceleration, distance, relative distance, reach position, time headway, time to collision, traveled distance, stand still, end of road, off road, collision "
         "and relative clearance conditions are true exactly when the documented quantity, computed from the current poses, bounding boxes and velocities in the given coordinate system and "
         "direction, satisfies the rule. With several triggering entities, each entity is judged on its own, and 'any'/'all' combine these results.",
         ["inputs", "histories", "configurations"],
         "for every combination of condition, rule, coordinate system, free-space flag and entity poses on the grid; for every sequence of entity inputs up to the bound for conditions with memory",
         "The result is a function of two poses, boxes, speeds and of history; tests sample single points.",
         [OT + "OSCCondition.cpp", OT + "OSCCondition.hpp", SE + "Entities.cpp", RM + "RoadManager.cpp"],
         [("entity conditions", OT + "OSCCondition.cpp"), ("distances between objects", SE + "Entities.cpp")],
         "d_ent", ENUM, "Bounded: poses from grids on straight roads; values within a margin of the threshold are left open.", ["condition callbacks, state change callbacks, variables set by events"])
    prop("C07", "Speed, lane change and lane offset actions follow their dynamics",
         "Over any sequence of frame times, a speed, lane change or lane offset action moves the value from where it was when the action started to its target along the given shape (linear, sinusoidal, cubic, step) and "
         "dimension (time, distance, rate), ends in the frame the target is reached and not before, leaves the entity on the target afterwards, never exceeds the vehicle's performance limits, "
         "and behaves the same when the action is executed again.",
         ["inputs", "schedules", "configurations"],
         "for every shape, dimension, start/target pair of the bound and every sequence of frame times up to the bound",
         "Frame times are chosen by the user; tests use one constant frame time.",
         [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp"],
         [("transition dynamics", OT + "OSCPrivateAction.cpp"), ("speed, lane change and lane offset actions", OT + "OSCPrivateAction.cpp")],
         "d_dyn", TREE, "Bounded: straight road, frame times 0.05 and 0.2, horizons in the evidence.", ["object state"])
    prop("C08", "Road, lane and world coordinates agree with the OpenDRIVE geometry",
         "For every road made of line, arc, spiral, poly3 and paramPoly3 geometries with any elevation, superelevation, lane offset and lane widths, a position given in road (s, t), lane (s, lane, offset) or world "
         "(x, y) coordinates gets the world pose the OpenDRIVE geometry defines, and its road, lane and world coordinates describe the same point, whatever positions the same object had before.",
         ["inputs", "histories"],
         "for every road of the bounded family, every placement on the grid and every ordered pair of placements on one position object",
         "Tests look at a few coordinates on sample roads; the mapping must hold along every geometry type and must not depend on the previous position.",
         [RM + "RoadManager.cpp", RM + "RoadManager.hpp", RML + "esminiRMLib.cpp"],
         [("geometry evaluation", RM + "RoadManager.cpp"), ("position mapping", RM + "RoadManager.cpp")],
         "d_road", ENUM, "Bounded: road family and grids in the evidence. World to road mapping is compared within the resolution of the sampled reference line.", ["RM_* position data"])
    prop("C09", "Lane queries report the lane structure of the road description",
         "At every s of every road, the number of lanes, their ids, types, widths, offsets, speed limits and road rules reported by the library are those of the road description; a position is attributed to the lane that contains it, "
         "snapping respects the allowed lane types, and placing an object in a lane puts it in exactly that lane regardless of where it was before.",
         ["inputs", "histories"],
         "for every lane layout of the bounded family, every s and lane on the grid and every ordered pair of placements",
         "Lane layouts combine sections, widths, offsets, types and traffic rules; tests use a few maps.",
         [RM + "RoadManager.cpp", RM + "RoadManager.hpp", RML + "esminiRMLib.cpp"],
         [("lane sections and widths", RM + "RoadManager.cpp"), ("lane snapping", RM + "RoadManager.cpp")],
         "d_road", ENUM, "Bounded: lane layouts and grids in the evidence; exact section boundaries are excluded.", ["RM_* position and lane data"])
    prop("C10", "Moving along the road follows lane links across sections, roads and junctions",
         "A position moved a distance along the road network ends exactly that far along its lane: through lane sections and road links it stays in the linked lane, keeps its lane offset and heading as seen from the vehicle however "
         "the roads are drawn, takes a junction connection that its lane has (the one matching the selector angle), and stops at the end of the road with an error code. Looking ahead sees the place a move would reach and changes nothing. "
         "Where a lane ends without a link it moves to the closest lane on the same side.",
         ["inputs", "histories", "configurations"],
         "for every network of the bounded family, every start lane, s, offset and heading and every sequence of moves up to the bound",
         "Roads may be drawn in either direction, linked at either end and divided in sections; tests drive through a few maps.",
         [RM + "RoadManager.cpp", RM + "RoadManager.hpp", RML + "esminiRMLib.cpp"],
         [("move along the road", RM + "RoadManager.cpp"), ("junction connections", RM + "RoadManager.cpp")],
         "d_move", ENUM, "Bounded: networks, distances and depths in the evidence.", ["RM_* position data and probe info"])
    prop("C11", "Road distance between two positions is the shortest connected way",
         "The distance between two positions along the road is the length of the shortest way along connected lanes, positive in front of the start position as it is heading and negative behind; lateral and lane differences "
         "refer to the start lane continued along that way. Positions that are not connected are reported as such.",
         ["inputs", "configurations"],
         "for every network of the bounded family and every ordered pair of positions on the grid",
         "The shortest way depends on the whole network; tests measure a few pairs.",
         [RM + "RoadManager.cpp", RM + "RoadManager.hpp", RML + "esminiRMLib.cpp"],
         [("path search", RM + "RoadManager.cpp"), ("position difference", RM + "RoadManager.cpp")],
         "d_move", ENUM, "Bounded: networks and grids in the evidence.", ["RM_SubtractAFromB"])
    prop("C13", "A recording replays exactly what the simulation did",
         "Every frame of a recorded run, at its simulation time, replays with the same objects and for each object the same pose, road position, speed, wheel state, type, controller, visibility, lights, name and bounding box that the simulation had, "
         "whatever changed or did not change between frames, whatever the time step sequence was, whichever objects were added or removed, and in whatever order the recording is browsed.",
         ["histories"],
         "for every operation sequence up to the bound and every ordered pair of browsed frames",
         "Only changes are stored and frame times are reconstructed, so a fault shows only for particular sequences of changes, time steps and jumps.",
         [SE + "PacketHandler.cpp", SE + "PacketHandler.hpp", RP + "Replay.cpp", RP + "Replay.hpp", PB + "playerbase.cpp"],
         [("change based writer", SE + "PacketHandler.cpp"), ("timelines and frame times", RP + "Replay.cpp")],
         "d_dat", "stateless exploration of the real engine: every operation sequence up to a bound is recorded and the file replayed, every frame compared with the states observed while recording",
         "Bounded: 7 operations, 4 steps (5 thorough), no ghost restart.", ["object state while recording", "Replay entries"])
    prop("C14", "An interrupted recording replays every frame that was completely written",
         "If a recording ends after any byte, as after a crash or a full disk, reading it never crashes: without a complete header it is refused, otherwise every frame that was followed by another one replays exactly as recorded, "
         "and no value is shown that was never recorded.",
         ["crash_points"],
         "for every byte at which the file of the recorded histories may end",
         "A crash can cut the file anywhere; tests read complete files only.",
         [SE + "PacketHandler.cpp", SE + "PacketHandler.hpp", RP + "Replay.cpp", RP + "Replay.hpp"],
         [("packet reader", SE + "PacketHandler.cpp"), ("timelines", RP + "Replay.cpp")],
         "d_dat", "exhaustive crash-point exploration: recordings of the real engine cut after every byte, each prefix read by the real replay code and compared with the states observed while recording",
         "Bounded: 3 histories (52 thorough); the file holds a prefix of what was written.", ["Replay entries"])
    prop("C15", "Parameters, expressions and catalog entries resolve to what the scenario says",
         "An expression has the value of its mathematical reading for the parameters in scope and a malformed one is refused; a parameter reference resolves to the innermost declaration visible at that place, a catalog reference "
         "to its default values overridden by its own assignments only, and a declaration or assignment is not visible outside its element.",
         ["inputs", "configurations"],
         "for every expression of the bounded grammar and every arrangement of declarations, assignments and references of the bounded family",
         "Results depend on nesting and evaluation order over an unbounded set of expressions and scopes; tests fix a few.",
         [SE + "Parameters.cpp", SE + "ScenarioReader.cpp", SE + "Catalogs.cpp", CM + "CommonMini.cpp"],
         [("expression evaluation", SE + "Parameters.cpp"), ("parameter scopes", SE + "ScenarioReader.cpp")],
         "d_param", ENUM, "Bounded: grammar depth and scope arrangements in the evidence.", ["parameter values, entity properties"])
    prop("C16", "A parameter distribution runs every combination it specifies, once",
         "For every deterministic parameter value distribution, the number of permutations is the product (for value sets the number of sets) the file specifies, each index gives a different combination, all combinations appear, "
         "and each run uses exactly the values of its index whatever order the permutations are run in. Invalid specifications are refused.",
         ["inputs", "histories"],
         "for every distribution file of the bounded family and every order of selecting permutations up to the bound",
         "Combinatorial structure: tests use one or two distribution files.",
         [OT + "OSCParameterDistribution.cpp", OT + "OSCParameterDistribution.hpp", LIB + "esminiLib.cpp"],
         [("permutation enumeration", OT + "OSCParameterDistribution.cpp")],
         "d_param", ENUM, "Bounded: distributions in the evidence.", ["permutation count, index and resulting parameter values"])
    prop("C17", "Parameters and variables keep their type and the value last set",
         "After any sequence of typed sets through the library and of variable actions in the scenario, reading a parameter or variable gives the value last set successfully; a set or get with the wrong type or an unknown name is "
         "refused and changes nothing.",
         ["histories"],
         "for every sequence of set operations, right and wrong, up to the bound",
         "The outcome depends on the whole sequence of operations over four types.",
         [SE + "Parameters.cpp", LIB + "esminiLib.cpp", OT + "OSCGlobalAction.cpp"],
         [("typed parameter access", SE + "Parameters.cpp"), ("variable actions", OT + "OSCGlobalAction.cpp")],
         "d_param", TREE, "Bounded: depth 2 (3) for sets, 3 (4) for actions.", ["SE_Get*/SE_Set* parameters and variables"])
    prop("C18", "Library calls naming things that do not exist are refused and change nothing",
         "Every library call given an object id, position handle, index, road, sensor or name that does not exist - or called before a scenario is loaded or after it was closed - returns its error value, does not crash, "
         "touches no memory outside the caller's data and leaves the simulation as it was.",
         ["inputs", "histories"],
         "for every call of the library table, every invalid argument of the bounded set and every stage of the scenario life cycle",
         "There are hundreds of calls times invalid arguments times stages; tests try a few.",
         [LIB + "esminiLib.cpp", RML + "esminiRMLib.cpp"],
         [("argument checks", LIB + "esminiLib.cpp"), ("position handles", RML + "esminiRMLib.cpp")],
         "d_api", "exhaustive enumeration of (call, invalid argument, life cycle stage) on the real library built with address and undefined behaviour sanitizers",
         "Bounded: calls and argument values in the evidence; null output pointers excluded.", ["return values, complete object states"], variant="asan")
    prop("C19", "A scenario behaves the same however often and after whatever it is run",
         "A scenario run with the same seed and step sequence produces the same object states every time: in a fresh process, after any other scenario in the same process, after runs that were closed early, failed to load or used "
         "other options, and after another run of itself.",
         ["histories", "configurations"],
         "for every example scenario of the repository after every previous history of the bounded set (thorough: after every other example scenario)",
         "Left-over global state or uninitialised memory shows only for particular histories.",
         [LIB + "esminiLib.cpp", PB + "playerbase.cpp", SE + "ScenarioEngine.cpp", CM + "CommonMini.cpp"],
         [("global state reset", LIB + "esminiLib.cpp"), ("player set-up and tear-down", PB + "playerbase.cpp")],
         "d_api", "exhaustive enumeration of (scenario, previous history) on the real library, each compared bit by bit with a run in a fresh process",
         "Bounded: the example scenarios and histories listed in the evidence.", ["complete object states after every step"])
    prop("C12", "Reported states are taken over and derived motion matches the poses",
         "Every pose, speed, velocity, acceleration, angular rate or wheel state reported for an object is what the object has, until and after the next step, and changes nothing else; what is not reported is derived: velocity is the "
         "displacement per time, acceleration and rates are the changes per time, speed keeps the object moving along its lane and the odometer sums the distance moved. Simulation time and time stamps advance by exactly the requested step.",
         ["histories", "inputs"],
         "for every sequence of report calls and steps up to the bound, and every object and step of every example scenario with several time step sequences",
         "Reports and engine motion interact through flags kept over several calls; only sequences reveal stale or lost flags.",
         [LIB + "esminiLib.cpp", SE + "ScenarioEngine.cpp", SE + "Entities.cpp", RM + "RoadManager.cpp"],
         [("report functions", LIB + "esminiLib.cpp"), ("derived motion", SE + "ScenarioEngine.cpp")],
         "d_rep", TREE, "Bounded: 17 reports and 2 steps, depth 4 (5 thorough); example scenarios 250 steps.", ["object state, velocities, accelerations, rates, wheels, odometer"])
    prop("C20", "Objects are aligned to the road as their position mode says",
         "For every combination of absolute and relative modes for height, heading, pitch and roll - given with the call or set beforehand - a reported pose is taken as it is where absolute and added to the road surface pose where "
         "relative; when the engine moves the object afterwards, components in relative update mode follow the road surface and absolute ones stay.",
         ["inputs", "configurations"],
         "for every mode combination on every road, place and pose of the bounded grid",
         "256 mode combinations times road shapes; tests fix a few.",
         [RM + "RoadManager.cpp", RM + "RoadManager.hpp", LIB + "esminiLib.cpp"],
         [("alignment modes", RM + "RoadManager.cpp")],
         "d_rep", ENUM, "Bounded: grid in the evidence; angles mixing absolute and relative modes on tilted roads are compared to second order, and their update is left open.", ["object pose"])
    prop("C21", "Server threads and the main loop behave as if taking turns",
         "Messages received over UDP while the simulation runs (injected speed, lane change and lane offset actions, pause, play, step, quit, external ego state) take effect as if each was handled between two frames, whatever the "
         "interleaving: no data race, deadlock, lost message or half-made frame. Simulation time advances by exactly the frames run, objects move accordingly, injected actions complete and are removed, and stopping the server always ends.",
         ["schedules", "histories"],
         "for every interleaving of main thread and server thread at their synchronisation points up to the preemption bound, for every message sequence of the set",
         "Tests see one schedule; races show in rare interleavings only.",
         [PB + "PlayerServer.cpp", PB + "playerbase.cpp", SE + "Server.cpp", CM + "logger.hpp"],
         [("player server", PB + "PlayerServer.cpp"), ("ego server", SE + "Server.cpp"), ("frame", PB + "playerbase.cpp")],
         "d_srv", "stateless model checking of the real threads: depth-first enumeration of all schedules at synchronisation points up to a preemption bound, every execution watched by the thread sanitizer",
         "Bounded: message sequences and preemption bound in the evidence; sockets replaced by a stand-in.", ["data races", "simulation time", "object state"], variant="tsan")
    prop("C22", "An entity following a trajectory is where the trajectory says at every step",
         "An entity following a trajectory is on it after every step, whatever the frame times: without time reference at the distance travelled with its speed (also negative or changing), with an absolute or relative time reference at "
         "the place the vertex times give with scale and offset. Its heading is the specified one or along the path, its height as specified or on the road, its speed matches its motion; the action ends once, exactly in the step in which the end is "
         "reached, and the rest of that frame is driven on straight.",
         ["inputs", "histories"],
         "for every polyline trajectory of the bounded set, with and without headings, in both following modes, every timing and start, every sequence of frame times and speeds up to the bound",
         "Position depends on where the frame boundaries fall relative to vertices and the end.",
         [OT + "OSCPrivateAction.cpp", RM + "RoadManager.cpp"],
         [("follow trajectory action", OT + "OSCPrivateAction.cpp"), ("trajectory shapes", RM + "RoadManager.cpp")],
         "d_traj", TREE, "Bounded: shapes, timings and frame sequences in the evidence.", ["object state", "story board element state changes"])
    prop("C23", "The entities present are exactly those declared, added and not deleted",
         "After any history of adding and deleting - by scenario actions, also for tractors with trailers and for entities already there or already gone, or by calls - the objects reported are exactly those present: each once, with an id that never "
         "changes nor is reused, its name, type, place and speed; the others move on undisturbed, and nothing refers to an object that is gone (sensors, injected actions). Every such action completes.",
         ["histories"],
         "for every sequence of scenario actions, calls and steps up to the bound",
         "Dangling references and stale lists appear only in particular orders of adding, deleting and stepping.",
         [LIB + "esminiLib.cpp", SE + "Entities.cpp", OT + "OSCGlobalAction.cpp", SE + "IdealSensor.cpp"],
         [("entity lists", SE + "Entities.cpp"), ("add and delete actions", OT + "OSCGlobalAction.cpp"), ("add and delete calls", LIB + "esminiLib.cpp")],
         "d_life", TREE + ", built with address and undefined behaviour sanitizers", "Bounded: operations and depths in the evidence; SE_DeleteObject on objects added by SE_AddObject.", ["object list, ids, names, states, sensor lists"], variant="asan")
    prop("C24", "An object sensor lists exactly the objects in its range and field of view",
         "After every step an object sensor lists exactly the objects visible to sensors whose reference point lies within its near and far range and horizontal field of view around its own heading, wherever it is mounted and however its host is "
         "placed - each once, never its host, and never more than its capacity.",
         ["inputs", "configurations"],
         "for every sensor, host pose and object placement of the bounded grid",
         "Sides, wrap-around of angles, limits and full lists multiply.",
         [SE + "IdealSensor.cpp", LIB + "esminiLib.cpp", PB + "playerbase.cpp"],
         [("object sensor", SE + "IdealSensor.cpp")],
         "d_life", ENUM, "Bounded: grid in the evidence.", ["sensor object lists"], variant="asan")
    prop("C25", "Distances, time to collision and collisions reported match the objects' poses",
         "The distances between two objects that the library reports (lateral, longitudinal, Euclidian, lanes apart, between reference points or bounding boxes), their time to collision and the list of objects each object currently collides with "
         "follow from the poses, sizes and speeds of the two objects at that moment. Repeated distance queries that may reuse an earlier measurement return one actually made for that pair, direction and kind, no older than the documented period; "
         "objects that are deleted or have left drop out of the collision lists and out of the answers.",
         ["inputs", "histories"],
         "for every pose, speed and query of the bounded grid, every bounded history of queries, steps, moves, additions and removals",
         "Directions, lanes, overlap and orientation multiply, and reused measurements or stale lists depend on who asked what before.",
         [SE + "ScenarioEngine.cpp", SE + "Entities.cpp", LIB + "esminiLib.cpp"],
         [("distances and collisions", SE + "Entities.cpp"), ("collision lists and repeated measurements", SE + "ScenarioEngine.cpp"), ("query calls", LIB + "esminiLib.cpp")],
         "d_dist", TREE + ", built with address and undefined behaviour sanitizers", "Bounded: grids, operations and depths in the evidence.", ["distances", "time to collision", "collision lists"], variant="asan")
    prop("C26", "A position given in a scenario puts the entity where it says",
         "An entity teleported to, or starting at, a world, lane, road, relative world, relative object, relative lane, relative road or trajectory position is exactly there: given coordinates and angles are met, omitted ones follow the road "
         "surface and direction (relative positions without orientation: the documented default), relative ones are taken from the reference entity's pose at that moment. Distances beyond a road's end continue along the connected road and lane; "
         "`ds` counts along the road and `dsLane`, with its lane steps and offset, along the driving direction of the lane, in right- and left-hand traffic. Neither the previous position nor earlier evaluations matter.",
         ["inputs", "histories"],
         "for every position element, pose of the reference entity and previous position of the bounded set",
         "Kinds of position, given and omitted components, road shapes, traffic rule and reference poses multiply; results are kept between evaluations.",
         [RM + "RoadManager.cpp", OT + "OSCPosition.cpp", SE + "ScenarioReader.cpp", OT + "OSCPrivateAction.cpp"],
         [("resolving relative positions", RM + "RoadManager.cpp"), ("position elements", OT + "OSCPosition.cpp"), ("reading positions", SE + "ScenarioReader.cpp")],
         "d_pos", ENUM, "Bounded: road pairs, catalogue of positions and reference poses in the evidence.", ["object state"])
    prop("C27", "Routes: an entity drives its route, and positions on it are where they should be",
         "An entity with an assigned route takes the route's roads at every junction its lane allows, however time is divided into frames; the last assigned route counts. The route runs the shortest lane-connected way through its waypoints, and "
         "its points, length, on/off status and the look-ahead position along it follow from that. Route positions (lane or road coordinates) and relative positions (along the entity's own route, else the reference's) lie on the route at the "
         "asked distance, with the asked lane, offset and heading.",
         ["histories", "inputs"],
         "for every route of the bounded networks, every sequence of drives and route assignments up to the depth, every listed route position",
         "Direction of travel, drawing direction of roads, contact points, lane links and waypoints multiply; progress on the route is kept across frames.",
         [RM + "RoadManager.cpp", OT + "OSCPrivateAction.cpp", OT + "OSCPosition.cpp", SE + "ScenarioReader.cpp", LIB + "esminiLib.cpp"],
         [("routes and path search", RM + "RoadManager.cpp"), ("assign route action", OT + "OSCPrivateAction.cpp"), ("route positions", SE + "ScenarioReader.cpp")],
         "d_route", TREE, "Bounded: networks of two junctions, routes and drives in the evidence.", ["object state", "route queries"])
    prop("C28", "A speed profile is followed as specified, however time is divided into frames",
         "In position mode the speed runs in straight lines through the targets at their times, starting from the current speed (or the first target, given time 0), later where acceleration limits demand it; targets without a time are approached "
         "with the maximum acceleration. In follow mode the same lines are followed with corners rounded by the jerk limits, starting and ending at zero acceleration; a single target is reached on time, or as early as the limits allow. "
         "Acceleration and jerk limits hold, the last target is met exactly, the action ends then and not before, and targets relative to an entity are offset by its speed.",
         ["inputs", "schedules"],
         "for every profile of up to 3 targets of the bounded set and every listed division of time into frames",
         "Targets with and without time, limits, modes and collinear or equal targets combine in ways a few example profiles do not reach.",
         [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp", SE + "ScenarioReader.cpp"],
         [("speed profile action", OT + "OSCPrivateAction.cpp"), ("reading profile and limits", SE + "ScenarioReader.cpp")],
         "d_long", ENUM, "Bounded: targets, limits and frame schedules in the evidence.", ["object speed", "action state"])
    prop("C29", "A requested distance to another entity is reached and kept, whatever that does",
         "Without limits the requested distance or time gap (longitudinal: ahead, behind or on the side it is, between reference points or bounding boxes; lateral: left or right) holds in every frame and a longitudinal action takes over the target's speed. "
         "With limits the acceleration, jerk and speed limits hold, and the distance and the target's speed are reached and kept. "
         "A continuous action never ends, any other ends on reaching the distance, and executing it again means the same as the first time.",
         ["histories", "schedules"],
         "for every sequence of target speeds, displacements of the actor and frame lengths up to the bound, and every listed division of time into frames with limits",
         "Displacements, coordinate systems, sides of the road and limits combine, and state kept from one execution to the next only shows in the second.",
         [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp", SE + "ScenarioReader.cpp"],
         [("distance actions", OT + "OSCPrivateAction.cpp"), ("reading the actions", SE + "ScenarioReader.cpp")],
         "d_long", TREE, "Bounded: distances, limits, schedules and depth in the evidence.", ["object position, speed", "action state"])
    prop("C30", "Synchronized entities arrive together, with the specified final speed",
         "An entity under a synchronize action reaches its destination when the master reaches its own, whatever speeds the master chooses on the way, with the final speed where one is given (absolute or relative to the master) and at that speed throughout the steady state. "
         "It waits while the master stands, never drives backwards, and with a constant master its speed follows constant accelerations (with a stop in between where needed). "
         "The action ends on arrival and not before, and executing it again, or from the first frame on, means the same.",
         ["inputs", "histories", "schedules"],
         "for every combination of distances, speeds, final speed, steady state and master history of the bounded set, and every listed division of time into frames",
         "Which of several profiles applies depends on all of these together, and on what the master does later.",
         [OT + "OSCPrivateAction.cpp", OT + "OSCPrivateAction.hpp", SE + "ScenarioReader.cpp"],
         [("synchronize action", OT + "OSCPrivateAction.cpp"), ("reading it", SE + "ScenarioReader.cpp")],
         "d_sync", ENUM, "Bounded: distances, speeds and schedules in the evidence.", ["object position, speed", "action state"])
    prop("C31", "The ghost drives its entity's scenario ahead of time, and its trail records it",
         "With a ghost, the ghost at time t is where the entity itself would be at t plus the headstart without a ghost, for events triggered by time, travelled distance, position, speed or other events. "
         "Where a trigger depends on others or on inputs, the ghost starts over from the entity when it happens and drives on as the entity would from there. "
         "The ghost trail gives, for any time and any distance ahead and whatever was asked before, where and how fast the entity is to be.",
         ["programs", "histories"],
         "for every program of one or two events of the bounded set of triggers and actions",
         "The ghost executes the story by shifting times, exchanging entities in triggers and rewinding: each combination takes another way through it.",
         [SE + "ScenarioEngine.cpp", SE + "Storyboard.cpp", OT + "OSCPrivateAction.cpp", CT + "ControllerExternal.cpp", PB + "playerbase.cpp", LIB + "esminiLib.cpp", RM + "RoadManager.cpp"],
         [("ghost setup, restart", SE + "ScenarioEngine.cpp"), ("restart teleport", OT + "OSCPrivateAction.cpp"), ("stepping the ghost alone", PB + "playerbase.cpp"), ("trail queries", LIB + "esminiLib.cpp")],
         "d_ghost", ENUM, "Bounded: triggers and actions in the evidence.", ["object and ghost positions, speed", "ghost trail queries"])
    prop("C32", "Road signs are found where the road file puts them, lights show what is set",
         "Every sign of every road is returned by both libraries with the id, name, place, orientation, size and lanes that the road file describes, in its order and whatever was asked before. "
         "A traffic light shows in each of its lamps the state last set for it by initial or story actions, other lights keep theirs, "
         "and a traffic signal condition holds exactly when the light is in the state it names.",
         ["histories", "inputs"],
         "for every sign of the bounded set of roads, and every sequence of state actions up to the depth",
         "Signs and lights are spread over the road file, the actions and the conditions; tests look at one light and few signs.",
         [RM + "RoadManager.cpp", OT + "OSCGlobalAction.cpp", OT + "OSCCondition.cpp", SE + "ScenarioReader.cpp", LIB + "esminiLib.cpp", RML + "esminiRMLib.cpp"],
         [("signals parsing, lights", RM + "RoadManager.cpp"), ("state action", OT + "OSCGlobalAction.cpp"), ("signal condition", OT + "OSCCondition.cpp"), ("sign queries", LIB + "esminiLib.cpp")],
         "d_signal", TREE, "Bounded: signs, lights and depth in the evidence.", ["SE/RM_GetRoadSign and validity", "lamps", "conditions that hold"])
    prop("C33", "The latest action in a domain ends the others of its entity, and nothing else",
         "When an action of an entity starts, every running action of the same entity that controls the same domain (longitudinal motion, lateral motion, or the same light) is ended at once, initial actions included; "
         "actions in other domains, of other entities, and those in no domain go on unchanged, and afterwards exactly the actions that were neither completed nor replaced are running and have effect.",
         ["histories"],
         "for every sequence and simultaneous pair of action starts up to the depth",
         "Whether an action survives depends on what was started before and after it; tests run a few pairs of actions.",
         [SE + "Storyboard.cpp", OT + "OSCPrivateAction.hpp", OT + "OSCPrivateAction.cpp", SE + "ScenarioEngine.cpp"],
         [("start of an event", SE + "Storyboard.cpp"), ("domains of actions", OT + "OSCPrivateAction.hpp"), ("actions", OT + "OSCPrivateAction.cpp")],
         "d_conf", TREE, "Bounded: actions and depth in the evidence. One known finding (lateral distance action).", ["sequences of starts", "simultaneous starts", "running initial action"])

