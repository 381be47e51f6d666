"""Single source for properties.jsonl and MANIFEST.json.  python3 tools/properties.py regenerates both."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
TR = ("TLC model checking of the specification; every generated behaviour replayed in the code; recorded runs of the code validated "
      "against the specification")
RP = "TLC enumeration of a TLA+ specification with exact expected results, each case replayed in the code"
TV = "recorded executions of the code validated by TLC against a TLA+ trace specification"
NOTE_TR = ("Exhaustive on the specification within the constants given in DESIGN.md, bound to the code by replaying the generated behaviours and by "
           "validating recorded runs; for the code itself it is bounded exploration. Trusts TLC, the stand-in world of the harness, shapely and numpy.")
NOTE_RP = ("Exact (integer/rational) expected results from the specification for every case within the constants given in DESIGN.md, compared with the "
           "code; bounded for the code itself. Trusts TLC, numpy/shapely and the realisation of the cases in the harness.")


def prop(id, title, statement, over, text, why, files, mech, technique=RP, note=NOTE_RP, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note,
                  state=state, observe=observe))


SIM = "src/dg_commons/sim/simulator.py"
STR = "src/dg_commons/sim/simulator_structures.py"
why_sim = ("The tests run a handful of full scenarios with one step size and only look at whether they finish; no test varies {what}.")

prop("S01", "Command cadence: asked on schedule, stepped once per step, command held",
     "At the first instant and then at the first physics instant at which at least one command period has passed since the previous request, every "
     "player still in the simulation is asked for commands exactly once, and at no other instant. At every physics instant every such player's model is "
     "advanced exactly once, by exactly one physics step, under the command its agent returned last. This holds for every ratio of command period to "
     "step (also when not a multiple), every number and order of players.",
     ["schedules", "configurations", "histories"], "all step sizes, command periods, player sets, orders, episode lengths and agent behaviours",
     why_sim.format(what="the ratio of command period to physics step, or records when agents are asked"),
     [SIM], [dict(name="pre_update: asks and advances", where=SIM), dict(name="last command time", where=STR)], TR, NOTE_TR,
     [dict(name="last request instant / held command", meaning="drive the cadence", where=SIM)])
prop("S02", "All players decide on one snapshot of the instant",
     "What a player observes at an instant is the state every player still in the simulation had at the beginning of that instant, with that instant as "
     "its time, whatever the order in which players are processed and whatever the others do in the same step. The agent receives exactly what its own "
     "sensor makes of that snapshot.",
     ["schedules", "histories"], "all player orders, commands of other agents and sensors",
     why_sim.format(what="the order of players or compares observations across players of one instant"),
     [SIM, "src/dg_commons/sim/sim_perception.py"], [dict(name="observation taken before models are advanced", where=SIM)], TR, NOTE_TR)
prop("S03", "Logs are complete and true",
     "Each player's log holds the state of its model at every physics instant from the start until it leaves or the episode ends (the state before the "
     "step of that instant), and the command, extra data and computation time of every request at the instant of the request, with strictly increasing "
     "simulation-clock timestamps. Logged values are never altered afterwards by the evolution of the simulation or by agents.",
     ["histories", "configurations"], "all runs, including players leaving early and agents that reuse or mutate their command objects",
     "The tests only check that logs are non-empty or plot them; none compares them with what the models really did.",
     [SIM, "src/dg_commons/sim/log_visualisation.py"], [dict(name="player loggers", where=STR)], TR, NOTE_TR)
prop("S04", "A player leaves exactly when its mission is fulfilled",
     "A player with a mission leaves the simulation at the end of the first physics step after which its mission is fulfilled, with its last state logged "
     "at that instant, and never before; a player without mission never leaves. Once it left it is no longer asked, advanced, observed by others, or "
     "involved in collisions.",
     ["histories", "configurations"], "all missions, orders of fulfilment, and simultaneous fulfilments",
     why_sim.format(what="when several missions are fulfilled, or checks what happens to players that left"),
     [SIM], [dict(name="removal of finished players", where=SIM)], TR, NOTE_TR)
prop("S05", "An episode ends exactly when it should",
     "A run ends after the first physics step after which the clock has passed the maximum time, or the first collision lies further back than the "
     "configured window, or no player is left, or players had missions and none of those is left in the simulation; never earlier, and no agent or model "
     "is used afterwards.",
     ["configurations", "histories"], "all maximum times, collision windows, missions and collision histories",
     why_sim.format(what="the termination parameters around their boundary values"),
     [SIM], [dict(name="termination test", where=SIM)], TR, NOTE_TR)
prop("S06", "Collisions are reported exactly when bodies come together",
     "After each step, two bodies in the simulation (players, or a player and the static environment) whose footprints overlap while they move towards "
     "each other are reported once, with the instant and the two bodies involved, and their velocities change only then; bodies that do not touch or that are "
     "separating are not reported (a moving obstacle of the scenario bouncing off the static environment is not an event of a player and not reported). Reports appear in order of time and the time of the first collision of the run is the one of the first report. Bodies that "
     "merely touch do not make a run fail.",
     ["histories", "inputs"], "all positions, headings, speeds, numbers of bodies and static obstacles",
     "The tests use two or three scripted crashes; none covers grazing contacts, repeated contacts, several simultaneous contacts or contact while separating.",
     [SIM, "src/dg_commons/sim/collision.py", "src/dg_commons/sim/collision_utils.py"], [dict(name="pairwise and environment collision checks", where=SIM)], TR, NOTE_TR)
prop("S07", "A run depends only on its own configuration",
     "The outcome of a run (logs, reports, end time, remaining players) depends only on the configuration and agents it is given: not on previous runs of the "
     "same or another simulator object, nor on runs started in between or nested inside it, nor on the process it happens in. Two runs of equal configurations give equal outcomes.",
     ["histories", "schedules"], "all histories of runs over any number of simulator objects, including interleaved and failed ones",
     "Every test builds one simulator and runs it once.",
     [SIM], [dict(name="simulator state reset", where=SIM)], TR, NOTE_TR)
prop("S08", "Agents are initialised once, privately, before anything else",
     "Before the first request every agent is told exactly once about the episode: its name, the configured seed, its own goal and the scenario, as private "
     "copies. Whatever an agent or sensor does to what it was given (goal, scenario, observations, own commands) does not change the configuration, the "
     "goals used to end missions, other agents' data, the models or the logs.",
     ["histories", "programs"], "all agents, including ones that mutate everything they are handed",
     "The agents of the tests are well behaved.",
     [SIM, "src/dg_commons/sim/agents/agent.py"], [dict(name="on_episode_init", where=SIM)], TR, NOTE_TR)
prop("S09", "Reading a log back gives the situation at that time",
     "Reading a log at a time gives, per player, the logged state if one exists (interpolated between the neighbouring logged states otherwise, held at the "
     "ends), the command in force and the extra data in force at that time; players that left before that time or were not present are treated "
     "consistently. The overall start and end of a log are the extremes over its players.",
     ["inputs", "histories"], "all logs and all query times, at, between, before and after the samples",
     "Tests read logs only through animations of a few scenarios.",
     [STR, "src/dg_commons/seq/sequence.py"], [dict(name="log interpolation", where=STR)])

SEQ = "src/dg_commons/seq/sequence.py"
prop("Q01", "Lookups in sampled sequences",
     "A sampled sequence returns at a sampling instant exactly the stored value and reports every other instant as undefined; 'at or previous' returns the "
     "value of the latest sample not after the instant (undefined before the first); interpolation is the straight line between the neighbouring samples, "
     "equal to the samples at sampling instants and constant beyond both ends. Start and end are the first and last instants; empty sequences have none.",
     ["inputs"], "all sequences, timestamp types (int, float, decimal), value types and query instants",
     "A few fixed sequences and queries are tested.", [SEQ], [dict(name="at, at_or_previous, at_interp", where=SEQ)])
prop("Q02", "Sampled sequences are well-formed immutable values",
     "A sequence can only be built from strictly increasing timestamps of one number type with as many values, a builder accepts exactly later samples, and "
     "anything else is refused. Once built, a sequence never changes (whatever happens to the inputs, the builder or derived sequences), equal contents are "
     "equal and hash equally. Sub-sequences keep exactly the samples within the closed interval, shifting moves every instant, transforming keeps exactly the "
     "samples with a result.",
     ["inputs", "histories"], "all inputs, all histories of builder operations and derivations",
     "Tests cover one valid and one invalid construction.", [SEQ], [dict(name="constructor validation, builder", where=SEQ)])
prop("Q03", "Calculus on sampled sequences",
     "Differentiating gives the slope of every interval at its middle, integrating the running trapezoidal area at the end of every interval, accumulating the "
     "running sum at every sample; iteration over intervals yields each pair of consecutive samples once, in order, with the time between them. Threshold "
     "crossings are found exactly once per change of side, at the instant where the straight line between the samples passes the threshold.",
     ["inputs"], "all sequences and thresholds", "Two fixed examples are tested.",
     ["src/dg_commons/seq/seq_op.py", SEQ], [dict(name="seq_differentiate, seq_integrate, seq_accumulate, find_crossings", where="src/dg_commons/seq/seq_op.py")])

MOD = ["src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/vehicle_dynamic.py", "src/dg_commons/sim/models/pedestrian.py",
       "src/dg_commons/sim/models/diff_drive.py", "src/dg_commons/sim/models/obstacles_dyn.py", "src/dg_commons/sim/models/spacecraft.py",
       "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/model_utils.py",
       "src/dg_commons/sim/models/vehicle_utils.py"]
prop("M01", "Motion models respect actuation and state limits",
     "Whatever command it receives, a motion model never accelerates, steers, turns or thrusts beyond its configured actuation limits, and a quantity with "
     "configured bounds (speed of road vehicles, pedestrians and moving obstacles, steering and nozzle angle, turn rate of obstacles and spacecraft) that has "
     "reached a bound is not driven further beyond it, while commands that lead back are not suppressed. Commands within the limits are applied unchanged; "
     "thrusters without fuel produce nothing.",
     ["inputs", "histories"], "all states, commands and sequences of commands, all models",
     "Tests apply a few moderate commands to some models.", MOD, [dict(name="limit functions", where="src/dg_commons/sim/models/model_utils.py")])
prop("M02", "Velocity, pose, footprint and impact regions agree with the state",
     "Setting a body's velocity, in its own or in the world frame, and reading it back in either frame gives the same physical velocity and turn rate, also "
     "after the body turned, and setting does not alter pose or the given arguments. The footprint is the outline moved to the pose of the body, and the "
     "impact regions together cover exactly the footprint, each lying on the side it is named after.",
     ["inputs", "histories"], "all poses, velocities and frames, all models with free velocities (longitudinal speed for wheeled ones)",
     "No test sets velocities; footprints are only drawn.", MOD, [dict(name="get_velocity/set_velocity/get_footprint/get_mesh", where="src/dg_commons/sim/models/")])
prop("M03", "Motion models follow their equations of motion",
     "The change of state of a model is the one of its documented dynamics: position moves with the velocity rotated into the world, bodies with body-frame "
     "velocities see the rotation terms, the bicycle turns at speed times tangent of the steering angle over the wheelbase, thrusters act along their "
     "direction and consume fuel, vehicles on tyres feel the air in proportion to the square of their speed, each axle its share of the weight (shifted by acceleration), rolling resistance, and a lateral force by Pacejka's formula of the slip angle that limits the longitudinal one. The laws do not depend on position and heading of the body, are mirror symmetric, an update integrates them over the "
     "given step and two half steps equal one step.",
     ["inputs"], "all states and commands, all models, all step sizes", "Tests check one or two trajectories for plausibility.", MOD,
     [dict(name="dynamics, update", where="src/dg_commons/sim/models/")],
     RP + "; " + TV)
prop("M04", "States and commands form vector spaces with faithful array forms",
     "Adding, subtracting, scaling (from either side) and dividing states and commands acts on every component alike and leaves the operands unchanged, for "
     "every model. Conversion to an array and back reproduces the value; arrays of the wrong length and sums of different kinds are refused; equal values "
     "are equal and hash equally.",
     ["inputs", "programs"], "all expressions over states and commands of all models", "A single state class is tested.", MOD,
     [dict(name="__add__/__mul__/as_ndarray/from_array", where="src/dg_commons/sim/models/")])

exec(open(os.path.join(V, "tools", "properties_more.py")).read())

NOT_APPLICABLE = []


def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            a = dict(files=p["files"], mechanism=p["mech"], hook_needed=None)
            if p["state"]:
                a["state"] = list(p["state"])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    checks = [dict(property=p["id"], quick_cmd=f"./check {p['id']} quick", thorough_cmd=f"./check {p['id']} thorough", technique=p["technique"],
                   level="model_checking", level_note=p["note"]) for p in P if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))]
    missing = [p["id"] for p in P if p["id"] not in {c["property"] for c in checks}]
    assert not missing, missing
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=NOT_APPLICABLE,
                       notes="Specifications in spec/ (TLA+, checked with TLC); harness in vf/ and checks/; see DESIGN.md."), f, indent=1)
        f.write("\n")


main()
