COL = ["src/dg_commons/sim/collision.py", "src/dg_commons/sim/collision_utils.py", "src/dg_commons/sim/collision_structures.py"]
prop("C01", "Impacts exchange the right impulse",
     "When two bodies that come together collide, they exchange one impulse along the contact normal that pushes them apart: linear momentum and angular "
     "momentum are conserved, the closing speed at the impact point is reversed and multiplied by the smaller of the two restitution coefficients, no kinetic "
     "energy is created, and what the impact does not act on (pose, tangential velocity) stays as it was. An immovable obstacle keeps still, a body that can only "
     "roll along its heading keeps that component of the resulting velocity. Both bodies are marked as collided; bodies already separating are left alone.",
     ["inputs"], "all shapes, poses, velocities, masses, inertias and restitution coefficients, bodies and static obstacles",
     "The tests look at whether two scripted crashes run through.", COL,
     [dict(name="impulse resolution", where=COL[0]), dict(name="impact geometry and impulse", where=COL[1])], RP + "; " + TV)
prop("C02", "Collision reports say what happened",
     "The report of a collision names exactly the two parties, the instant, the impact point and the unit contact normal pointing out of the first body, and "
     "for each party its footprint, its velocity and turn rate before and after the impact in the world frame, the change of its translational kinetic energy "
     "and the impact regions that were touched by the other body. The environment is reported as immovable. Later motion does not change a report.",
     ["inputs", "histories"], "all impacts of two bodies or of a body with a static obstacle",
     "The tests print reports.", COL, [dict(name="reports", where=COL[0])], RP + "; " + TV)
prop("C03", "Fault follows the traffic rules at the impact point",
     "In a collision of two players a player is at fault exactly if its pose is legal in none of the lanes found at the impact point, that is, it lies outside "
     "of each of them or points against it (so both are at fault off the road). A player hitting the static environment is at fault, the environment never "
     "is; without a map nobody is at fault.",
     ["inputs"], "all poses of both players, impact points and lane networks", "No test looks at fault.", COL,
     [dict(name="check_who_is_at_fault", where=COL[1])])
prop("C04", "Reports of an accident add up",
     "Combining the collision reports of the same parties yields the report of the whole accident: instant, impact point, normal, fault and velocities before the "
     "impact come from the earlier report, the velocities after it from the later one, energy losses are added and impact locations joined; in order of time the "
     "grouping does not matter. The combined reports are left unchanged, collisions that could not be resolved add nothing, and reports of different parties "
     "are refused.",
     ["inputs", "histories"], "all sequences of reports, resolved or not, at equal or different instants", "No test combines reports.",
     ["src/dg_commons/sim/collision_structures.py"], [dict(name="combine_collision_reports", where="src/dg_commons/sim/collision_structures.py")])
prop("C05", "Collided bodies lose control for good",
     "Once a pedestrian, bicycle, motorcycle, truck, spacecraft, spaceship, rocket or differential drive has collided, its commands have no effect any more, and "
     "this never ends; cars keep obeying theirs, and before a collision everybody does. Pedestrians and vehicles with tyre dynamics are then also "
     "slowed down in proportion to their velocities; nothing else in their motion changes.",
     ["histories"], "all models, all histories of commands and collisions", "No test drives a model after a collision.",
     ["src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/vehicle_dynamic.py", "src/dg_commons/sim/models/pedestrian.py",
      "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py",
      "src/dg_commons/sim/models/diff_drive.py"], [dict(name="has_collided handling in update and dynamics", where="src/dg_commons/sim/models/")], RP + "; " + TV)
PER = ["src/dg_commons/sim/sim_perception.py"]
prop("O01", "Delayed and ghosted observations",
     "With a delay filter an agent gets, at every instant, the observation recorded exactly one latency ago when there was one at that instant, otherwise the oldest one not older "
     "than the latency, and in the beginning the very first one; news never go back in time. A ghost filter removes exactly the ghost, exactly for others further away than the "
     "given distance. Filters compose, nobody loses sight of itself, and the observations a filter is given are not altered. A filter used in another run starts afresh.",
     ["histories", "inputs"], "all stacks of filters, latencies, distances, observers and histories of observations", "No test uses these filters over time.",
     PER, [dict(name="DelayedObsFilter, GhostObsFilter", where=PER[0])])
prop("O02", "Field of view: see what is in range, in view and not hidden",
     "A field-of-view sensor shows a player every other player that is within its range and viewing angle and not hidden behind an obstacle or another body, and nobody "
     "who is out of range, outside of the viewing angle or completely hidden (up to the angular resolution of the sensor), wherever it stands and whatever its heading. "
     "The unobstructed sensor depends on range alone. The player itself is always in its view and what is shown is unaltered. This holds for a sensor used again in another scenario.",
     ["inputs"], "all poses, ranges, viewing angles, players and obstacles", "One picture is drawn in the tests.",
     PER + ["src/dg_commons/perception/sensor.py", "src/dg_commons/geo.py"], [dict(name="fov_as_polygon", where="src/dg_commons/perception/sensor.py")])
PT = ["src/dg_commons/planning/trajectory.py"]
prop("T01", "Trajectories: joining, refining, commands, moving",
     "Joining two trajectories of which the second begins with the speed and steering the first ends with gives all the samples of the first followed by those of the second but its first; "
     "an empty trajectory is neutral; trajectories that do not connect or whose instants overlap are refused. Refining by n puts n equally spaced, interpolated samples into every interval "
     "and keeps the originals. The plan of commands applies, from the start of every interval, the acceleration and steering rate that lead to the next sample. A rigid motion moves every pose and "
     "leaves instants, speeds and steering alone. No operation alters its operands.",
     ["inputs"], "all trajectories with float or decimal instants", "Tests only subsample one trajectory.", PT,
     [dict(name="Trajectory.merge, upsample, commands_plan_from_trajectory", where=PT[0])])
prop("T02", "Graphs of plans",
     "A graph of plans remembers exactly the timed states and connections put into it: a new state gets the generation of the parent it was first reached from plus one and keeps it for good, connections from "
     "unknown states are refused, and adding a connection again replaces its data. Between two connected states it answers with a shortest chain of connections: the states along it, its transitions spliced "
     "together in time without repeating the joints, or its commands from the start of each connection. The commands along a trajectory are those of the connections between the nodes it goes through. Without a chain, or for unknown states, it raises an error. From a single root it lists one "
     "trajectory (one transition) for each leaf.",
     ["histories"], "all histories of additions", "Not tested at all.", PT, [dict(name="TrajectoryGraph", where=PT[0])])
PP = ["src/dg_commons/planning/motion_primitives.py", "src/dg_commons/planning/commands_sampler.py"]
prop("T03", "Motion primitives: all that is feasible and nothing else",
     "The generator of motion primitives returns, for every start and end speed and steering of its grids (or from the given start state), the trajectory under constant commands if and only if the acceleration "
     "and steering rate this takes are within the limits of the vehicle; it starts at the origin (or in the given state), has one sample more than steps, at multiples of dt, follows the dynamics it was given "
     "and ends with the speed and steering wanted. The sampler of commands returns one step for every pair of commands of its grid and refuses grids beyond the limits. Grids derived from a vehicle span "
     "exactly what the vehicle can do.",
     ["inputs"], "all grids, limits, horizons and start states", "Tests draw primitives of one car.", PP,
     [dict(name="MotionPrimitivesGenerator, CommandsSampler", where=PP[0])])
prop("T04", "Predicting a car with the kinematic bicycle",
     "The discrete successor clips the commands to the limits of the vehicle, makes one explicit step of the kinematic bicycle (centre of gravity ahead of the rear axle) and clips the new speed and "
     "steering; the continuous successor follows the bicycle without limits. Both are the same wherever the car is and whatever its heading, and leave the given state and command alone.",
     ["inputs"], "all states, commands and step lengths", "Not compared with anything in tests.", ["src/dg_commons/dynamics/bicycle_dynamic.py"],
     [dict(name="BicycleDynamics.successor", where="src/dg_commons/dynamics/bicycle_dynamic.py")])
CT = ["src/dg_commons/controllers/pid.py", "src/dg_commons/controllers/speed.py", "src/dg_commons/controllers/steer.py"]
prop("K01", "PID control of speed and steering",
     "A controller returns gain times error plus the integral part plus the derivative part, within its output limits: the reference is limited to its range, the integral accumulates error times elapsed time "
     "and stays within the anti-windup limits, the derivative compares the errors of the last two requests. The first request, and requests without time in between, have no derivative and "
     "accumulate nothing. Controllers made for a vehicle respect its limits, and controllers do not share anything.",
     ["histories"], "all histories of references, measurements and requests, all gains and limits", "Not tested directly.", CT,
     [dict(name="PID.get_control", where=CT[0])])
prop("K02", "Choice of speed among other road users",
     "The speed behaviour aims at the nominal speed, unless: somebody faster than the minimum and closer than the yield distance heads 45 to 135 degrees to the left of oneself (comes from the right): stop; "
     "likewise to the right (comes from the left), or somebody in front (within 1.2 m aside) heading towards oneself closer than the safety time at the sum of the speeds: stop and emergency; somebody "
     "in front (more than 0.5 m ahead, within 1.2 m aside) heading the same way within 30 degrees, closer than the distance of the safety time at one's speed plus the excess of speed: the speed of the other less this excess, "
     "not below 0. Several others: the most cautious answer. It depends on relative poses only, not on earlier observations, and ignores oneself.",
     ["inputs"], "all configurations of others, all poses", "Not tested directly.", CT, [dict(name="SpeedBehavior.get_speed_ref", where=CT[1])])
prop("K03", "Agents do what they are told: plans, policies, lane followers",
     "An agent with a plan issues at every instant the latest command of the plan that has started; an agent with a policy issues what the policy says for the state of its own player. A lane follower "
     "asks its speed behaviour and its pure pursuit (the given ones or its own), feeds them everything observed and its pose and progress on the lane, and tracks their references with speed and steering "
     "controllers limited by the vehicle. After one emergency it aims at standing still for ever. In closed loop on a gently bending lane it gets onto the lane and to the nominal speed, moves forward (but for the last centimetres of a stop), "
     "never runs into a slower vehicle ahead, and comes to a stop after an emergency.",
     ["histories"], "all histories of observations, plans, policies and lanes", "Tests look at one drive without judging it.",
     ["src/dg_commons/sim/agents/agent.py", "src/dg_commons/sim/agents/lane_follower.py"], [dict(name="LFAgent.get_commands", where="src/dg_commons/sim/agents/lane_follower.py")], RP + "; " + TV)
prop("K04", "Pure pursuit steers towards the lane ahead",
     "The goal point lies on the lane, at least the minimum distance ahead, one look-ahead distance (speed times gain, within limits) away from the vehicle, or at the minimum distance if everything ahead is further away. "
     "The steering angle is the one whose circle leads the rear axle towards the goal point; it depends on the pose relative to the lane only and not on earlier requests.",
     ["inputs"], "all poses, speeds, parameters", "Not compared with anything in tests.", ["src/dg_commons/controllers/pure_pursuit.py"],
     [dict(name="PurePursuit.get_desired_steering", where="src/dg_commons/controllers/pure_pursuit.py")])
LN = ["src/dg_commons/maps/lanes.py"]
prop("L01", "Lanes: length, progress, centre, width, outline",
     "A lane made from control points or borders has its control points in the middle of its borders, heading along it with the left border to the left, half the distance as half width. Progress (metres) and "
     "parameter (control points) are inverse to each other and rise together, before, in and after the lane; centre and half width are interpolated between control points, along arcs, and extended straight "
     "on both ends. The length is the sum of the arcs, the outline has both borders, the quick centre point agrees up to the chord.",
     ["inputs"], "all lanes, positions in the world and headings", "Tests look at one lane.", LN + ["src/dg_commons/geo.py"], [dict(name="DgLanelet", where=LN[0])])
prop("L02", "Where in the lane am I",
     "The lane pose of a body tells its progress along the lane, its offset (left positive) and its heading relative to the lane, whatever its position in the world and heading; consistent with these it tells whether "
     "the body is inside, left or right of, before or after the lane, its distances from centre and borders, and whether it goes in the right direction (within 90 degrees). Questions about points answer alike. "
     "Up to 0.3 percent of the length; for points nearer to the lane than its centre of curvature.",
     ["inputs"], "all lanes and poses", "Tests compare single poses.", LN, [dict(name="DgLanelet.lane_pose_from_SE2_generic", where=LN[0])], RP + "; " + TV)
prop("G01", "Goals are fulfilled exactly where they should be",
     "A lane goal is fulfilled within the strip of one metre around the line across the lane at the goal progress, and not before that progress; the goal at the end of a lane within the strip around its end; "
     "an area in its inside; a pose when the root of squared distance plus four times one minus the cosine of the heading difference is within the tolerance. It depends on the pose only (any kind of state, headings modulo "
     "full turns), copies answer alike, and the geometry shown is that of the goal.",
     ["inputs"], "all goals and states, moved anywhere", "Tests use single goals in scenarios.", ["src/dg_commons/sim/goals.py"],
     [dict(name="RefLaneGoal, PolygonGoal, PoseGoal", where="src/dg_commons/sim/goals.py")])
EV = ["src/dg_commons/eval/safety.py", "src/dg_commons/eval/efficiency.py", "src/dg_commons/eval/comfort.py"]
prop("E01", "Safety metrics of a recorded run",
     "Of the players active at an instant (the ones whose goal, possibly one that depends on time, is not fulfilled then) the distance is that between the outlines of the ego and the nearest other one; the time to collision the first tenth of a "
     "second at which the outlines touch if everybody keeps their velocity, among those that approach and whose centres would meet within five seconds, up to three seconds; the braking needed the speed of the ego over twice "
     "this time (infinite for contact now). Over a run (or a range of it, limits included) the smallest distance and time and the largest braking are reported with instant and player, the first one counts. "
     "Without others there is no answer. It holds for every kind of player with an outline, wherever the scene is and however it is turned, and the run and models given are left alone.",
     ["inputs"], "all runs of several players, all outlines, goals and ranges", "Tests evaluate a recorded run without judging the answer.", EV,
     [dict(name="get_min_dist, get_min_ttc_max_drac", where=EV[0])])
prop("E02", "Efficiency and comfort of a recorded run",
     "The distance travelled is the sum of the distances between recorded positions. The largest jerk is the largest change of acceleration over time between consecutive samples within the range. The comfort acceleration is the "
     "root mean square of the acceleration weighted in frequency by the approximation of ISO 2631 for horizontal motion, for any number of samples. The goal lane counts as reached at the first instant at which the goal is fulfilled "
     "or the pose is within tolerances on the goal lane or one of the lanes before or after it in its row, otherwise not at all. Finding out always ends, in any network of lanes and from any pose; "
     "in a network with overlapping lanes the one with the geometry of the goal lane is meant.",
     ["inputs"], "all runs, lane networks (recorded ones included), poses, tolerances", "Tests evaluate a recorded run without judging the answer.", EV,
     [dict(name="desired_lane_reached", where=EV[1]), dict(name="get_acc_rms, get_max_jerk", where=EV[2])])
SC = ["src/dg_commons/sim/scenarios/factory.py", "src/dg_commons/sim/scenarios/convert_from_commonroad.py", "src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py", "src/dg_commons/sim/scenarios/utils_dyn_obstacle.py"]
prop("D01", "Replicas of recorded scenarios",
     "Loading a recorded scenario makes every recorded vehicle (car, truck, bus, bicycle) that moves 20 cm or more between its first and last position a player, at its first recorded pose and speed, with a size derived from "
     "its shape; whatever does not move that far, and every static obstacle, an obstacle of the recorded shape in its place, found by the spatial index; other moving road users are skipped. Players are numbered in the order "
     "recorded, one may be called Ego. Each follows a lane through its first position that leads (itself or its successors) to its last position, the one most aligned with its heading (angles modulo full turns, whatever the "
     "numbers of the lanes); if there is none, its recorded positions. The scenario is found anywhere below the folder, with or without extension.",
     ["inputs"], "all recorded scenarios: kinds of obstacles, networks, lane numbers, headings", "Tests load three scenarios.", SC,
     [dict(name="get_scenario_commonroad_replica", where=SC[0]), dict(name="infer_lane_from_dyn_obs", where=SC[3])])
prop("V01", "Animations show what was recorded",
     "An animation of a run has a picture for each multiple of the time step between the first and the last recorded instant (at least one per second). In every picture each player is drawn once: outline, name, wheels (front ones "
     "steered), thrusters and lamps at the recorded pose, interpolated between samples; flames against the forces as long as there is fuel; lamps by the latest lights command: blinking 0.4 s on and off at the "
     "sides commanded, headlights yellow, brake lights bright while decelerating. Obstacles and fixed goals stay, moving goals are drawn where they are at that instant, planned trajectories are the latest ones in the colours given, the "
     "time is right and the view is the one asked for. Nothing is left over from earlier pictures, and the log is left alone. Shapes of every kind (collections, several parts, holes) cover exactly the area they should.",
     ["inputs", "histories"], "all runs, kinds of players, commands, frame rates, views, shapes", "Tests write films without looking at them.",
     ["src/dg_commons/sim/simulator_visualisation.py", "src/dg_commons/sim/simulator_animation.py", "src/dg_commons/sim/models/vehicle_ligths.py", "src/dg_commons/maps/shapely_viz.py"],
     [dict(name="create_animation", where="src/dg_commons/sim/simulator_animation.py"), dict(name="SimRenderer.plot_player", where="src/dg_commons/sim/simulator_visualisation.py"), dict(name="get_phased_lights", where="src/dg_commons/sim/models/vehicle_ligths.py")])
prop("V02", "Pictures of collisions and logs show what was recorded",
     "The picture of a collision has the point and normal of impact and, for each player in the report, its outline, its name at the place where the log says it was at that time (the environment: where its outline is), its velocity "
     "before, after and at the point of impact (0.3 m per m/s), its spins and the named parts that were hit. A collision that could not be resolved shows nothing of that and no error. The picture of a log has for each player asked for "
     "one curve per quantity of the state and of the commands over the recorded times. Report and log are left alone.",
     ["inputs"], "all reports and logs, all kinds of players, with and without the environment, resolved or not", "Not compared with anything in tests.",
     ["src/dg_commons/sim/collision_visualisation.py", "src/dg_commons/sim/log_visualisation.py"],
     [dict(name="plot_collision", where="src/dg_commons/sim/collision_visualisation.py"), dict(name="plot_player_log", where="src/dg_commons/sim/log_visualisation.py")])
prop("R01", "Road boundaries and gates of a lane network",
     "The boundaries of a road network are the outline of all its lanes (every connected part of it) without the gates: a gate is the line across the beginning of each lane without predecessor and across the end of each lane without "
     "successor. Boundaries and gates together make up the whole outline, a boundary never closes a gate, however many gates there are (none, one, many), wherever the network is. The network is left alone.",
     ["inputs"], "all lane networks", "Tests look at recorded networks without judging the answer.", ["src/dg_commons/maps/road_bounds.py"],
     [dict(name="build_road_boundary_obstacle", where="src/dg_commons/maps/road_bounds.py")])
GE = ["src/dg_commons/geo.py", "src/dg_commons/maps/shapes_generator.py"]
prop("G02", "Rigid motion",
     "Poses along a motion of constant twist are what interpolation between two of them gives (and what it extends to), their relative poses are powers of the same step wherever it starts, lead back and forth, and the distance along the arc "
     "adds up step by step and does not depend on the direction. Points and shapes of every kind move rigidly with a pose (same kind, area, length, holes), conversions between representations are inverse to each other "
     "(angles modulo full turns), and the poses given are left alone. Stars have their spikes and notches where asked, random ones their number of vertices in order of direction and within twice the radius. Polygons and open or closed lines handed to the collision checker are hit where the shape is (a line: on each of its sides) and nowhere else.",
     ["inputs"], "all poses, twists below half a turn in total, points, shapes", "Tests compare single poses.", GE,
     [dict(name="SE2_interpolate, relative_pose, get_distance_SE2, apply_SE2_to_shapely_geo", where=GE[0])])
UT = ["src/dg_commons/utils_toolz.py", "src/dg_commons/time.py", "src/dg_commons/sim/utils.py"]
prop("U01", "Utilities: combinations, frozen maps, reports, timing",
     "All combinations of the options of the players come up, each way of choosing exactly once, and none if a player has no options. Maps made by transforming values or selecting keys are right, frozen, hashable, and the originals are left alone. "
     "Who collided are all players in any report. A timed function takes and gives back what the function does, exceptions and nested calls included, keeps its name, and reports each call once.",
     ["inputs", "histories"], "all options (up to 3 players), nested calls (up to 7)", "Not tested.", UT,
     [dict(name="iterate_dict_combinations", where=UT[0]), dict(name="time_function", where=UT[1]), dict(name="who_collided", where=UT[2])])
CU = ["src/dg_commons/sim/collision_utils.py", "src/dg_commons/sim/collision.py"]
prop("C06", "Contacts of bodies of any outline are resolved or reported, never a crash",
     "If the outlines of two bodies (convex or not, walls of any shape, closed ones wherever they start) cross each other in exactly two places, the point of impact is in the middle of the two, the normal is perpendicular to the line between "
     "them, of length one, away from the middle of the first body; a body inside the other one is pushed away from its middle. Then the outcome is that of an impulse along the normal at that point with the smaller restitution, and so it is "
     "reported. Anything else is resolved with a proper normal or left unresolved: states are left alone, the collision is reported without data, the run goes on.",
     ["inputs"], "all outlines made of cells, all walls along a grid, every position and heading", "Tests collide a few rectangles.", CU,
     [dict(name="compute_impact_geometry", where=CU[0]), dict(name="resolve_collision, resolve_collision_with_environment", where=CU[1])])
MG = "src/dg_commons/sim/models/"
prop("M05", "Bodies are built to their dimensions",
     "A geometry has exactly the dimensions it is given, however it is made (fields or factory; what a factory is not given is as usual and does not depend on the rest), and its parts follow from them, whenever and in whatever order they "
     "are looked at: an outline symmetric about the axis with the stated width, length and overhang (as points, polygon and text alike), wheels at the axles and as wide apart as stated, of which only the front ones turn with the steering, "
     "each about its own centre, lamps at the ends on the side they are named after, thrusters at their mounts turning with the nozzle angle (those of a rocket mirroring each other), each with its own flame in proportion to its force. "
     "Geometries and parameters never change, equal ones are equal and hash equally, different dimensions make a difference; limits in the wrong order are refused, all others taken as they are.",
     ["inputs", "histories"], "all dimensions, kinds, steering and nozzle angles, forces, orders of looking", "Tests only use the usual dimensions and look at nothing but the pictures.",
     [MG + f for f in ("vehicle_structures.py", "vehicle_utils.py", "diff_drive_structures.py", "spacecraft_structures.py", "spaceship_structures.py", "rocket_structures.py", "model_structures.py", "pedestrian.py", "pedestrian_utils.py", "obstacles.py")],
     [dict(name="outline, wheels_position, get_rotated_wheels_outlines, lights_position", where=MG + "vehicle_structures.py"), dict(name="thrusters_outline_in_body_frame, flames_outline_in_body_frame", where=MG + "rocket_structures.py")])
