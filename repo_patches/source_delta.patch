From 99c45aaaae75bc51bba82bbbc2b9b4642eb703d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 01/53] fix: a Simulator carried state over between runs and
 between instances

---
 src/dg_commons/sim/simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d13061e..d5ee46b 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -73,7 +73,6 @@ class Simulator:
         - A post-update function that checks the new states of all the models and resolves collisions
     """
 
-    # fixme check if this is okay once you have multiple simulators running together
     last_observations: SimObservations = SimObservations(players=fd({}), time=Decimal(0))
     last_get_commands_ts: SimTime = SimTime("-Infinity")
     last_commands: dict[PlayerName, U] = {}
@@ -82,6 +81,11 @@ class Simulator:
     @time_function
     def run(self, sim_context: SimContext):
         logger.info("~~~~~> Beginning simulation")
+        # every run starts from scratch, nothing is carried over from other runs or other simulators
+        self.last_observations = SimObservations(players=fd({}), time=Decimal(0))
+        self.last_get_commands_ts = SimTime("-Infinity")
+        self.last_commands = {}
+        self.simlogger = {}
         # initialize the simulation
         for player_name, player in sim_context.players.items():
             scenario = deepcopy(sim_context.dg_scenario)
-- 
2.43.0


From 0e3faa4df5b6f466c3363eff9e79c5e89562b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 02/53] fix: bodies that merely touch crashed the simulation

---
 src/dg_commons/sim/simulator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index d5ee46b..1e211b3 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -213,6 +213,9 @@ class Simulator:
             items = env_obstacles.query(p_shape, predicate="intersects")
             for idx in items:
                 sobstacle = sim_context.dg_scenario.static_obstacles[idx]
+                if p_shape.touches(sobstacle.shape):
+                    # boundaries in contact without any overlap are not a collision
+                    continue
                 try:
                     report: Optional[CollisionReport] = resolve_collision_with_environment(
                         p, p_model, sobstacle, sim_context.time
@@ -243,7 +246,8 @@ class Simulator:
         for p1, p2 in combinations(sim_context.players, 2):
             a_shape = sim_context.models[p1].get_footprint()
             b_shape = sim_context.models[p2].get_footprint()
-            if a_shape.intersects(b_shape):
+            # boundaries in contact without any overlap are not a collision
+            if a_shape.intersects(b_shape) and not a_shape.touches(b_shape):
                 try:
                     report: Optional[CollisionReport] = resolve_collision(p1, p2, sim_context)
                 except CollisionException as e:
-- 
2.43.0


From 4a5f2daebb7367a046ff525bbdf1d572520eb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 03/53] fix: PedestrianModel.set_velocity overwrote the
 longitudinal speed with the yaw rate

---
 src/dg_commons/sim/models/pedestrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/pedestrian.py b/src/dg_commons/sim/models/pedestrian.py
index a002d17..3514238 100644
--- a/src/dg_commons/sim/models/pedestrian.py
+++ b/src/dg_commons/sim/models/pedestrian.py
@@ -249,7 +249,7 @@ class PedestrianModel(SimModel[SE2value, float]):
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.vx = omega
+        self._state.dpsi = omega
 
     @property
     def model_geometry(self) -> PedestrianGeometry:
-- 
2.43.0


From 3a160f3e62308b8615c57897b4168b196ef48315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 04/53] fix: VehicleModelDyn.set_velocity did not set the yaw
 rate

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index a068cad..917e885 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -215,7 +215,7 @@ class VehicleModelDyn(VehicleModel):
 
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-        self._state.dtheta = omega
+        self._state.dpsi = omega
 
     def get_acceleration_split(self, Facc: float) -> Sequence[float]:
         """Returns split of acceleration force to be applied on front and rear wheel"""
-- 
2.43.0


From d98555c6377de7f5c30dd747d62251b956c32d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 05/53] fix: RocketModel get/set_velocity rotated velocities
 that the state keeps in the global frame

---
 src/dg_commons/sim/models/rocket.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/dg_commons/sim/models/rocket.py b/src/dg_commons/sim/models/rocket.py
index a4fce0e..7706566 100644
--- a/src/dg_commons/sim/models/rocket.py
+++ b/src/dg_commons/sim/models/rocket.py
@@ -272,20 +272,20 @@ class RocketModel(SimModel[RocketState, RocketCommands]):
         return self.rg
 
     def get_velocity(self, in_model_frame: bool) -> (T2value, float):
-        """Returns velocity at COG"""
+        """Returns velocity at COG. Note that the velocities in the state are expressed in the global frame."""
         vx = self._state.vx
         vy = self._state.vy
         dpsi = self._state.dpsi
-        v_l = np.array([vx, vy])
-        if in_model_frame:
-            return v_l, dpsi
-        rot: SO2value = SO2_from_angle(self._state.psi)
-        v_g = rot @ v_l
-        return v_g, dpsi
+        v_g = np.array([vx, vy])
+        if not in_model_frame:
+            return v_g, dpsi
+        rot: SO2value = SO2_from_angle(-self._state.psi)
+        v_l = rot @ v_g
+        return v_l, dpsi
 
     def set_velocity(self, vel: T2value, dpsi: float, in_model_frame: bool):
-        if not in_model_frame:
-            rot: SO2value = SO2_from_angle(-self._state.psi)
+        if in_model_frame:
+            rot: SO2value = SO2_from_angle(self._state.psi)
             vel = rot @ vel
         self._state.vx = vel[0]
         self._state.vy = vel[1]
-- 
2.43.0


From 3222d748f502cfebb9f7d8084b684fee27459c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/53] fix: SpacecraftCommands.from_array raised KeyError

---
 src/dg_commons/sim/models/spacecraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/spacecraft.py b/src/dg_commons/sim/models/spacecraft.py
index a13d9ce..b98a5e0 100644
--- a/src/dg_commons/sim/models/spacecraft.py
+++ b/src/dg_commons/sim/models/spacecraft.py
@@ -55,7 +55,7 @@ class SpacecraftCommands:
     @classmethod
     def from_array(cls, z: np.ndarray):
         assert cls.get_n_commands() == z.size == z.shape[0], f"z vector {z} cannot initialize VehicleInputs."
-        return SpacecraftCommands(acc_left=z[cls.idx["acc_left "]], acc_right=z[cls.idx["acc_right"]])
+        return SpacecraftCommands(acc_left=z[cls.idx["acc_left"]], acc_right=z[cls.idx["acc_right"]])
 
 
 @dataclass(unsafe_hash=True, eq=True, order=True)
-- 
2.43.0


From 3684fab928294336e4f1803a4e2335d9790f358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 07/53] fix: commands_plan_from_trajectory unpacked IterateDT
 as a tuple

---
 src/dg_commons/planning/trajectory.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index d73d65a..70c0121 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -152,9 +152,11 @@ JointTrajectories = Mapping[PlayerName, Trajectory]
 def commands_plan_from_trajectory(trajectory: Trajectory) -> DgSampledSequence[VehicleCommands]:
     timestamps = []
     commands = []
-    for t0, _, dt, v0, v1 in iterate_with_dt(trajectory):
-        timestamps.append(t0)
-        commands.append(VehicleCommands(acc=(v1.vx - v0.vx) / dt, ddelta=(v1.delta - v0.delta) / dt))
+    for it in iterate_with_dt(trajectory):
+        timestamps.append(it.t0)
+        commands.append(
+            VehicleCommands(acc=(it.v1.vx - it.v0.vx) / it.dt, ddelta=(it.v1.delta - it.v0.delta) / it.dt)
+        )
     return DgSampledSequence[VehicleCommands](timestamps, commands)
 
 
-- 
2.43.0


From a0ff0b4ace995f0aa505b2e694a59644c4b8e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 08/53] fix: TrajectoryGraph.add_edge overwrote the generation
 of existing nodes

---
 src/dg_commons/planning/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 70c0121..795e336 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -178,7 +178,7 @@ class TrajectoryGraph(DiGraph):
         start_time, end_time = states.get_start(), states.get_end()
         self.check_node(node=(start_time, source))
         attr["transition"] = transition
-        if target not in self.nodes:
+        if (end_time, target) not in self.nodes:
             self.add_node(timed_state=(end_time, target), gen=self.nodes.get((start_time, source))["gen"] + 1)
 
         super(TrajectoryGraph, self).add_edge(u_of_edge=(start_time, source), v_of_edge=(end_time, target), **attr)
-- 
2.43.0


From 88c06a2cbc65d4e71beb0b14c50d54df4d901f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 09/53] fix: PoseGoal.get_plottable_geometry raised its result

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 4cf7b3a..58610f1 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -108,7 +108,7 @@ class PoseGoal(PlanningGoal):
         return np.linalg.norm(pose - goal_pose) <= self.tol
 
     def get_plottable_geometry(self, at: SimTime | float = 0) -> BaseGeometry:
-        raise self.goal_pose_poly
+        return self.goal_pose_poly
 
     @cached_property
     def goal_pose_poly(self) -> Polygon:
-- 
2.43.0


From 76cdbfc21d547ee229982c11cf11f890360d3371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 10/53] fix: RefLaneGoal placed its region at a wrong progress
 (meters used as control point index)

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 58610f1..8288c75 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -58,7 +58,7 @@ class RefLaneGoal(PlanningGoal):
 
     @cached_property
     def goal_polygon(self) -> Polygon:
-        poly = _polygon_at_along_lane(self.ref_lane, self.goal_progress)
+        poly = _polygon_at_along_lane(self.ref_lane, self.ref_lane.beta_from_along_lane(self.goal_progress))
         return poly
 
 
-- 
2.43.0


From c10542343db875c2bafb0ddc949dc404f2054de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 11/53] fix: PolicyAgent passed the observation to its policy
 instead of the state

---
 src/dg_commons/sim/agents/agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/agent.py b/src/dg_commons/sim/agents/agent.py
index 6a5ffbc..e8e541a 100644
--- a/src/dg_commons/sim/agents/agent.py
+++ b/src/dg_commons/sim/agents/agent.py
@@ -65,5 +65,5 @@ class PolicyAgent(Agent):
         self.my_name = init_sim_obs.my_name
 
     def get_commands(self, sim_obs: SimObservations) -> U:
-        my_state: X = sim_obs.players[self.my_name]
+        my_state: X = sim_obs.players[self.my_name].state
         return self.policy(my_state)
-- 
2.43.0


From be41ecbab9ea12b2514b37778372475eba2540b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 12/53] fix: braking changed the light colors of every vehicle
 for good

---
 src/dg_commons/sim/simulator_animation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 3a28349..0834133 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -1,4 +1,5 @@
 import math
+from dataclasses import replace
 from itertools import chain
 from typing import Mapping, Union, Optional, Sequence, Iterable
 
@@ -232,7 +233,8 @@ def get_lights_colors_from_cmds(cmds: VehicleCommands, t: Timestamp) -> LightsCo
 
 def lights_colors_from_lights_cmd(lights_cmd: LightsCmd, acc: float, t: Timestamp) -> LightsColors:
     phases = lightscmd2phases[lights_cmd]
-    lights_colors = get_phased_lights(phases, float(t))
+    # a copy, the colors of the phases are shared
+    lights_colors = replace(get_phased_lights(phases, float(t)))
     if acc < 0:  # and cmds == NO_LIGHTS:
         if lights_colors.back_left == red:
             lights_colors.back_left = red_more
-- 
2.43.0


From 6ee97985528ddf90f00403352afce19ff54ceb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 13/53] fix: safety metrics raised KeyError for players without
 a mission

---
 src/dg_commons/eval/safety.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index b5c9ec8..c9a9bbb 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -246,8 +246,8 @@ def _remove_finished_players(
     """
     log_new = {}
     for name, log in log_at_t.items():
-        mission = missions[name]
+        mission = missions.get(name)
         state = log.state
-        if not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 761cc54786d1bfb78d6f8246a442995f21901417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 14/53] fix: safety metrics ignored the time at which a mission
 is fulfilled

---
 src/dg_commons/eval/safety.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index c9a9bbb..1a7b381 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -107,7 +107,7 @@ def get_min_dist_at_t(
     :return: min dist, the closest agent from ego
     """
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None
@@ -146,7 +146,7 @@ def get_ttc_drac_at_t(
     """
     # time to collision
     logs_at_t = logs.at_interp(t)
-    logs_at_t = _remove_finished_players(logs_at_t, missions)
+    logs_at_t = _remove_finished_players(logs_at_t, missions, t)
     if ego_name not in logs_at_t.keys():
         # ego accomplished its goal
         return np.inf, None, -np.inf, None
@@ -236,18 +236,19 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
 
 
 def _remove_finished_players(
-    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal]
+    log_at_t: Mapping[PlayerName, LogEntry], missions: Mapping[PlayerName, TPlanningGoal], t: Timestamp
 ) -> Mapping[PlayerName, LogEntry]:
     """
     Remove the agents that have accomplished their goal.
     :param log_at_t: collection of players and their log(state, command, etc.) at time t
     :param missions: the goal of each player
+    :param t: sim time
     :return: a now collection of running players and their logs.
     """
     log_new = {}
     for name, log in log_at_t.items():
         mission = missions.get(name)
         state = log.state
-        if mission is None or not mission.is_fulfilled(state):
+        if mission is None or not mission.is_fulfilled(state, t):
             log_new[name] = log
     return log_new
-- 
2.43.0


From 533ce1c15e206eb7718a5813d51ecc0c96072451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 15/53] fix: replica scenarios placed static obstacles at the
 origin

---
 src/dg_commons/sim/scenarios/factory.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/factory.py b/src/dg_commons/sim/scenarios/factory.py
index a9e2ee3..1e6659b 100644
--- a/src/dg_commons/sim/scenarios/factory.py
+++ b/src/dg_commons/sim/scenarios/factory.py
@@ -67,12 +67,11 @@ def get_scenario_commonroad_replica(
                 logger.warn("Unable to convert CommonRoad dynamic obstacle due to " + e.args[0] + " skipping...")
     logger.info(f"Managed to load {len(players)}")
     for sobs in scenario.static_obstacles:
-        static_obstacles.append(
-            StaticObstacle(
-                obstacle_type=sobs.obstacle_type,
-                shape=sobs.obstacle_shape.shapely_object,
-            )
+        shape = apply_SE2_to_shapely_geo(
+            shapely_geometry=sobs.obstacle_shape.shapely_object,
+            se2_value=SE2_from_xytheta([*sobs.initial_state.position, sobs.initial_state.orientation]),
         )
+        static_obstacles.append(StaticObstacle(obstacle_type=sobs.obstacle_type, shape=shape))
     sim_param = SimParameters() if sim_param is None else sim_param
     return SimContext(
         dg_scenario=DgScenario(scenario, static_obstacles=static_obstacles),
-- 
2.43.0


From 4c78ac282b058f3f4cbdafa17e92d8dfc182600d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 16/53] fix: scalar * VehicleStateDyn did not scale the lateral
 and yaw velocities

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index 917e885..f651ae6 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -51,6 +51,8 @@ class VehicleStateDyn(VehicleState):
             delta=self.delta * val,
         )
 
+    __rmul__ = __mul__
+
     def as_ndarray(self) -> np.ndarray:
         return np.array([self.x, self.y, self.psi, self.vx, self.vy, self.dpsi, self.delta])
 
-- 
2.43.0


From 88b1e6eabfd4ba0036feae4bfa300efa13ffdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 17/53] fix: DynObstacleModel ignored its limits on the
 rotational acceleration

---
 src/dg_commons/sim/models/obstacles_dyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/obstacles_dyn.py b/src/dg_commons/sim/models/obstacles_dyn.py
index 5081d12..5c1651d 100644
--- a/src/dg_commons/sim/models/obstacles_dyn.py
+++ b/src/dg_commons/sim/models/obstacles_dyn.py
@@ -195,7 +195,8 @@ class DynObstacleModel(SimModel[DynObstacleState, DynObstacleCommands]):
 
         acc_x = apply_full_acceleration_limits(speed=vx, acceleration=u.acc_x + x0.dpsi * vy, p=self.op)
         acc_y = apply_full_acceleration_limits(speed=vy, acceleration=u.acc_y - x0.dpsi * vx, p=self.op)
-        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=u.acc_psi, p=self.op)
+        acc_psi = min(max(u.acc_psi, self.op.ddpsi_limits[0]), self.op.ddpsi_limits[1])
+        acc_psi = apply_rot_speed_constraint(omega=x0.dpsi, domega=acc_psi, p=self.op)
 
         return DynObstacleState(x=xdot, y=ydot, psi=x0.dpsi, vx=acc_x, vy=acc_y, dpsi=acc_psi)
 
-- 
2.43.0


From 7ec10601b72b683d31df975d381af03bebbb9dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 18/53] fix: DiffDriveModel impact regions did not cover its
 round footprint

---
 src/dg_commons/sim/models/diff_drive.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/dg_commons/sim/models/diff_drive.py b/src/dg_commons/sim/models/diff_drive.py
index 2a04efc..d10303b 100644
--- a/src/dg_commons/sim/models/diff_drive.py
+++ b/src/dg_commons/sim/models/diff_drive.py
@@ -10,7 +10,7 @@ from scipy.integrate import solve_ivp
 from shapely.geometry import Polygon
 
 from dg_commons import apply_SE2_to_shapely_geo, PoseState
-from dg_commons.sim import logger, ImpactLocation, IMPACT_RIGHT, IMPACT_LEFT, IMPACT_BACK, IMPACT_FRONT
+from dg_commons.sim import logger, ImpactLocation, IMPACT_EVERYWHERE
 from dg_commons.sim.models import ModelType
 from dg_commons.sim.models.diff_drive_structures import *
 from dg_commons.sim.simulator_structures import SimModel
@@ -175,19 +175,8 @@ class DiffDriveModel(SimModel[DiffDriveState, DiffDriveCommands]):
         return apply_SE2_to_shapely_geo(footprint, transform)
 
     def get_mesh(self) -> Mapping[ImpactLocation, Polygon]:
-        footprint = self.get_footprint()
-        vertices = footprint.exterior.coords[:-1]
-        cxy = footprint.centroid.coords[0]
-        # fixme maybe we can use triangulate from shapely inferring the side from the relative angle
-        impact_locations: Mapping[ImpactLocation, Polygon] = {
-            IMPACT_RIGHT: Polygon([cxy, vertices[0], vertices[3], cxy]),
-            IMPACT_LEFT: Polygon([cxy, vertices[1], vertices[2], cxy]),
-            IMPACT_BACK: Polygon([cxy, vertices[0], vertices[1], cxy]),
-            IMPACT_FRONT: Polygon([cxy, vertices[2], vertices[3], cxy]),
-        }
-        for shape in impact_locations.values():
-            assert shape.is_valid
-        return impact_locations
+        # the footprint is round: it has no sides to tell apart
+        return {IMPACT_EVERYWHERE: self.get_footprint()}
 
     def get_pose(self) -> SE2value:
         return SE2_from_xytheta([self._state.x, self._state.y, self._state.psi])
-- 
2.43.0


From b1cd6cf3dc14c221925eea0384a6c2a477b95756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 19/53] fix: combine_collision_reports failed on reports of
 unresolved collisions

---
 src/dg_commons/sim/collision_structures.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision_structures.py b/src/dg_commons/sim/collision_structures.py
index c801620..137357b 100644
--- a/src/dg_commons/sim/collision_structures.py
+++ b/src/dg_commons/sim/collision_structures.py
@@ -72,9 +72,13 @@ def combine_collision_reports(r1: CollisionReport, r2: CollisionReport) -> Colli
         )
     # impact point, normal are propagated according to the first report
     first_report, second_report = (r1, r2) if r1.at_time <= r2.at_time else (r2, r1)
-    combined_players_report: dict[PlayerName, CollisionReportPlayer] = {}
+    combined_players_report: dict[PlayerName, Optional[CollisionReportPlayer]] = {}
     for p in first_report.players:
         r1_player, r2_player = first_report.players[p], second_report.players[p]
+        if r1_player is None or r2_player is None:
+            # at least one of the collisions could not be resolved
+            combined_players_report[p] = r1_player if r2_player is None else r2_player
+            continue
         combined_players_report[p] = replace(
             r1_player,
             locations=r1_player.locations + r2_player.locations,
-- 
2.43.0


From 3a1d8f6512df4e6effbb2c3385867b1a54349aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 20/53] fix: concentric bodies collided with an undefined
 normal and got NaN velocities

---
 src/dg_commons/sim/collision_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index 7149053..d892a70 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -98,6 +98,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
     if a.contains(b):
         impact_point = b.centroid
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
+        if np.linalg.norm(r_ap) < 1.0e-9:
+            raise CollisionException("The impact normal between two concentric bodies is undefined")
         normal = r_ap / np.linalg.norm(r_ap)
     else:
         intersecting_points = _find_intersection_points(a, b)
-- 
2.43.0


From 0f158e20aacfa84ab68fcbfe7420dbb8ccd3fe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 21/53] fix: hitting an obstacle that is a straight segment
 crashed the simulation

---
 src/dg_commons/sim/collision.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/collision.py b/src/dg_commons/sim/collision.py
index 16d7690..faa647a 100644
--- a/src/dg_commons/sim/collision.py
+++ b/src/dg_commons/sim/collision.py
@@ -189,7 +189,8 @@ def resolve_collision_with_environment(
     )
     # create a report for the "environment" as a fictitious player
     if not isinstance(b_shape, Polygon):
-        b_shape = Polygon(b_shape)
+        # a segment does not enclose any area
+        b_shape = Polygon(b_shape) if len(b_shape.coords) > 2 else b_shape.buffer(1.0e-3)
     b_locations = [
         (IMPACT_EVERYWHERE, b_shape),
     ]
-- 
2.43.0


From a54ea61ca077125074e6c692069fd6a25ef186c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 22/53] fix: CommandsSamplerParam.from_vehicle_parameters spans
 the limits of the commands, not of the state

---
 src/dg_commons/planning/commands_sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/commands_sampler.py b/src/dg_commons/planning/commands_sampler.py
index 7f57ff8..b93a0ec 100644
--- a/src/dg_commons/planning/commands_sampler.py
+++ b/src/dg_commons/planning/commands_sampler.py
@@ -38,9 +38,9 @@ class CommandsSamplerParam:
         :param vp:
         :return:
         """
-        vel_linspace = (vp.vx_limits[0], vp.vx_limits[1], n_acc)
-        steer_linspace = (-vp.delta_max, vp.delta_max, n_steer_rate)
-        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=vel_linspace, steer_rate=steer_linspace)
+        acc_linspace = (vp.acc_limits[0], vp.acc_limits[1], n_acc)
+        steer_rate_linspace = (-vp.ddelta_max, vp.ddelta_max, n_steer_rate)
+        return CommandsSamplerParam(dt=dt, n_steps=n_steps, acc=acc_linspace, steer_rate=steer_rate_linspace)
 
 
 class CommandsSampler(TrajGenerator):
-- 
2.43.0


From d2f1cd9c43fefa022ee017b349a41287faf603d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 23/53] fix: air drag is proportional to the density and to the
 square of the speed

---
 src/dg_commons/sim/models/vehicle_dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/vehicle_dynamic.py b/src/dg_commons/sim/models/vehicle_dynamic.py
index f651ae6..5cd3775 100644
--- a/src/dg_commons/sim/models/vehicle_dynamic.py
+++ b/src/dg_commons/sim/models/vehicle_dynamic.py
@@ -176,7 +176,7 @@ class VehicleModelDyn(VehicleModel):
             Facc2_sat = Facc2 * math.sqrt(1 - (F2y / (F2_n * self.pacejka_rear.D)) ** 2)
 
             # Drag Force
-            F_drag = -0.5 * x0.vx * self.vg.a_drag * self.vg.c_drag * rho**2
+            F_drag = -0.5 * rho * self.vg.a_drag * self.vg.c_drag * x0.vx * abs(x0.vx)
             # longitudinal acceleration
             acc_x = (F1[0] + F_drag + Facc2_sat) / m + x0.dpsi * x0.vy
 
-- 
2.43.0


From 4a0292bd3733ce07ebf1855147c70c59f670513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 24/53] fix: before and after a lane, progress along it is
 measured in metres like within it

---
 src/dg_commons/maps/lanes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 488e488..5bc0cef 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -267,11 +267,11 @@ class DgLanelet:
 
         if i < 0:
             q0 = self.control_points[0].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1.0, 0], 0))
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q.as_SE2()
-            q1 = SE2.multiply(q0, SE2_from_translation_angle([0.1, 0], 0))
+            q1 = SE2.multiply(q0, SE2_from_translation_angle([1.0, 0], 0))
             alpha = beta - (n - 1)
         else:
             alpha = beta - i
@@ -286,12 +286,12 @@ class DgLanelet:
         i = int(np.floor(beta))
         if i < 0:
             q0 = self.control_points[0].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1.0, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta
         elif i >= n - 1:
             q0 = self.control_points[-1].q
-            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([0.1, 0], 0))
+            q1_tmp = SE2.multiply(q0.as_SE2(), SE2_from_translation_angle([1.0, 0], 0))
             q1 = SE2Transform.from_SE2(q1_tmp)
             alpha = beta - (n - 1)
         else:
-- 
2.43.0


From 8114b0c0a9e64f6665fc7add33e04b94cbdc9fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 25/53] fix: lane following agents use the pure pursuit
 controller they are given

---
 src/dg_commons/sim/agents/lane_follower.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index fd0a8cd..af489a9 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -35,7 +35,9 @@ class LFAgent(Agent):
         self.speed_controller: SpeedController = SpeedController.from_vehicle_params(model_param=model_params)
         self.speed_behavior: SpeedBehavior = SpeedBehavior() if speed_behavior is None else speed_behavior
         self.steer_controller: SteerController = SteerController.from_vehicle_params(vehicle_param=model_params)
-        self.pure_pursuit: PurePursuit = PurePursuit.from_model_geometry(model_geo)
+        self.pure_pursuit: PurePursuit = (
+            PurePursuit.from_model_geometry(model_geo) if pure_pursuit is None else pure_pursuit
+        )
         self.my_name: Optional[PlayerName] = None
         self.return_extra: bool = return_extra
         self._emergency: bool = False
-- 
2.43.0


From b337b7c7500d55e6073f217b2cf0d467d6a15dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 26/53] fix: quick centre point of a lane turned the wrong way
 round between headings +pi and -pi

---
 src/dg_commons/maps/lanes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/lanes.py b/src/dg_commons/maps/lanes.py
index 5bc0cef..9b891f0 100644
--- a/src/dg_commons/maps/lanes.py
+++ b/src/dg_commons/maps/lanes.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from math import atan2, isclose, pi
+from math import atan2, isclose, pi, remainder
 from typing import Sequence, Optional
 
 import numpy as np
@@ -299,7 +299,8 @@ class DgLanelet:
             q1 = self.control_points[i + 1].q
             alpha = beta - i
         p = q0.p * (1 - alpha) + q1.p * alpha
-        theta = q0.theta * (1 - alpha) + q1.theta * alpha
+        # along the shortest turn, headings may jump by 2*pi between control points
+        theta = q0.theta + remainder(q1.theta - q0.theta, 2 * pi) * alpha
         return SE2Transform(p, theta)
 
     def is_inside_from_T2value(self, position: T2value, tol: float = 1e-3) -> bool:
-- 
2.43.0


From 6f91124d2b2ba9326d72e32a1f53ded6b1ed4ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 27/53] fix: the goal at the end of a lane lies at its last
 control point

---
 src/dg_commons/sim/goals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/goals.py b/src/dg_commons/sim/goals.py
index 8288c75..c6dfeae 100644
--- a/src/dg_commons/sim/goals.py
+++ b/src/dg_commons/sim/goals.py
@@ -67,7 +67,7 @@ def _polygon_at_along_lane(
     at_beta: Optional[float] = None,
     inflation_radius: float = 1,
 ) -> Polygon:
-    maxbeta = at_beta if at_beta is not None else len(lanelet.control_points)
+    maxbeta = at_beta if at_beta is not None else len(lanelet.control_points) - 1
     q = lanelet.center_point(maxbeta)
     r = lanelet.radius(maxbeta)
     delta_left = np.array([0, r])
-- 
2.43.0


From 7314fae39c79912187a82d1157668e018631e1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 28/53] fix: the search for the desired lane ends beside bends

---
 src/dg_commons/eval/efficiency.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 5873502..82e2e32 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -54,22 +54,20 @@ def desired_lane_reached(
     ego_pose = SE2Transform.from_PoseState(ego_posestate)
     ref_lane = goal_lane.ref_lane  # dglanelet
     lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
+    visited: set[int] = set()  # a pose next to a bend can be after a lane and before its successor
     while not lane_pose.along_inside:
         if np.abs(lane_pose.along_lane) < 1.0 or np.abs(lane_pose.along_lane - ref_lane.get_lane_length()) < 1.0:
             # not inside the lane but close enough
             break
         if lane_pose.along_after:
-            ref_lane = get_successor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
-        if lane_pose.along_before:
-            ref_lane = get_predecessor_dglane(lanelet_network, ref_lane)
-            if ref_lane is not None:
-                lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
-            else:
-                break
+            next_lane = get_successor_lane(lanelet_network, ref_lane)
+        else:
+            next_lane = get_predecessor_lane(lanelet_network, ref_lane)
+        if next_lane is None or next_lane.lanelet_id in visited:
+            break
+        visited.add(next_lane.lanelet_id)
+        ref_lane = DgLanelet.from_commonroad_lanelet(next_lane)
+        lane_pose = ref_lane.lane_pose_from_SE2Transform(ego_pose)
 
     if goal_lane.is_fulfilled(state):
         return True
-- 
2.43.0


From 323fe90240ce34933b9cd1ab1c70c895b19e32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 29/53] fix: the lanelet of a lane is the one with its geometry
 where lanelets overlap

---
 src/dg_commons/eval/efficiency.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/eval/efficiency.py b/src/dg_commons/eval/efficiency.py
index 82e2e32..3df291a 100644
--- a/src/dg_commons/eval/efficiency.py
+++ b/src/dg_commons/eval/efficiency.py
@@ -84,9 +84,18 @@ def desired_lane_reached(
 
 def get_lanelet_from_dglanelet(lanelet_network: LaneletNetwork, dglanelet: DgLanelet) -> Lanelet:
     ref_point = dglanelet.control_points[1].q.p
-    lane_id = lanelet_network.find_lanelet_by_position([ref_point])[0][0]
-    lanelet = lanelet_network.find_lanelet_by_id(lane_id)
-    return lanelet
+    mid_point = 0.5 * (dglanelet.control_points[0].q.p + ref_point)
+    lane_ids = sum(lanelet_network.find_lanelet_by_position([mid_point, ref_point]), [])
+    candidates = [lanelet_network.find_lanelet_by_id(lane_id) for lane_id in lane_ids]
+
+    def mismatch(lanelet: Lanelet) -> float:
+        # where lanelets overlap, the one with the same center line is meant
+        start, end = lanelet.center_vertices[0], lanelet.center_vertices[-1]
+        return np.linalg.norm(start - dglanelet.control_points[0].q.p) + np.linalg.norm(
+            end - dglanelet.control_points[-1].q.p
+        )
+
+    return min(candidates, key=mismatch)
 
 
 def get_successor_lane(lanelet_network: LaneletNetwork, cur_lane: Lanelet | DgLanelet) -> Optional[Lanelet]:
-- 
2.43.0


From 2093fadf3dab9c734561a22e33ca82568afb4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 30/53] fix: weighted acceleration for odd numbers of samples

---
 src/dg_commons/eval/comfort.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 65b91bb..97bb6f4 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -41,7 +41,7 @@ def get_acc_rms(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None,
     freqs = np.fft.rfftfreq(n=len(acc_time), d=st)
     acc_freq_weighted = [acc_freq * acc_freq_filter(freq) for acc_freq, freq in zip(acc_freqs, freqs)]
     acc_freq_weighted = np.array(acc_freq_weighted)
-    acc_time_weighted = np.fft.irfft(acc_freq_weighted)
+    acc_time_weighted = np.fft.irfft(acc_freq_weighted, n=len(acc_time))
     acc_rms = 0
     for acc in acc_time_weighted:
         acc_rms += np.square(acc)
-- 
2.43.0


From e60ac6a3feb46dc604d0e84f4abf0c0470218c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 31/53] fix: limits of the range of the largest jerk compared
 as floats like the instants

---
 src/dg_commons/eval/comfort.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/eval/comfort.py b/src/dg_commons/eval/comfort.py
index 97bb6f4..d76a4af 100644
--- a/src/dg_commons/eval/comfort.py
+++ b/src/dg_commons/eval/comfort.py
@@ -10,11 +10,13 @@ def get_max_jerk(commands: DgSampledSequence[U], t_range: tuple[Timestamp | None
     Get the maximum jerk of the planned action sequence.
     Only timesteps within t_range are considered.
     """
+    # the instants iterated over are floats
+    t_min, t_max = (None if t is None else float(t) for t in t_range)
     max_jerk = 0
     for it in iterate_with_dt(commands):
-        if t_range[0] is not None and it.t1 < t_range[0]:
+        if t_min is not None and it.t1 < t_min:
             continue
-        if t_range[1] is not None and it.t1 > t_range[1]:
+        if t_max is not None and it.t1 > t_max:
             break
         jerk = (it.v1.acc - it.v0.acc) / float(it.t1 - it.t0)
         if np.abs(jerk) > max_jerk:
-- 
2.43.0


From 770ff3defea9e3ec5203afa85ab1ad3d7dfc5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 32/53] fix: safety metrics for models other than vehicles

---
 src/dg_commons/eval/safety.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index 1a7b381..a284f2b 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -186,9 +186,9 @@ def get_ttc_drac_at_t(
 def _get_dist(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[float, tuple[Point, Point]]:
     """get the minimum distance between two vehicles, considering their geometry"""
     pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
+    poly1 = apply_SE2_to_shapely_geo(model1.model_geometry.outline_as_polygon, pose1)
     pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly2 = apply_SE2_to_shapely_geo(model2.model_geometry.outline_as_polygon, pose2)
     nearest_pts = nearest_points(poly1, poly2)
     dist = distance(nearest_pts[0], nearest_pts[1])
     return dist, nearest_pts
@@ -204,9 +204,9 @@ def _get_ttc(state1: X, state2: X, model1: SimModel, model2: SimModel) -> tuple[
     :return: time-to-collision, distance-to-collision for agent1. distance-to-collision for agent2
     """
     pose1 = SE2_from_xytheta([state1.x, state1.y, state1.psi])
-    poly1 = apply_SE2_to_shapely_geo(model1.vg.outline_as_polygon, pose1)
+    poly1 = apply_SE2_to_shapely_geo(model1.model_geometry.outline_as_polygon, pose1)
     pose2 = SE2_from_xytheta([state2.x, state2.y, state2.psi])
-    poly2 = apply_SE2_to_shapely_geo(model2.vg.outline_as_polygon, pose2)
+    poly2 = apply_SE2_to_shapely_geo(model2.model_geometry.outline_as_polygon, pose2)
     ttc, dist_to_collision1, dist_to_collision2 = _get_ttc_of_poly_and_state(poly1, poly2, state1, state2)
     return ttc, dist_to_collision1, dist_to_collision2
 
-- 
2.43.0


From 93c388a9e65a27109c7a10432d532ce2ecd5f95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 33/53] fix: lanes of recorded vehicles found by their ids, not
 parts of them

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a0d558a..a05f0b0 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -23,9 +23,11 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
     candidates: list[DgLanelet] = []
     for init_id in init_ids:
         lanelet = network.find_lanelet_by_id(init_id)
-        merged_lanelets, _ = lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet=lanelet, network=network)
-        for merged_lanelet in merged_lanelets:
-            if any(str(id) in str(merged_lanelet.lanelet_id) for id in final_ids):
+        merged_lanelets, merged_ids = lanelet.all_lanelets_by_merging_successors_from_lanelet(
+            lanelet=lanelet, network=network
+        )
+        for merged_lanelet, ids in zip(merged_lanelets, merged_ids):
+            if any(id in ids for id in final_ids):
                 candidates.append(DgLanelet.from_commonroad_lanelet(merged_lanelet))
 
     if len(candidates) == 1:
-- 
2.43.0


From a92b7cc733cb371f8fb16ffcffb10c4968059374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 34/53] fix: alignment of recorded vehicles with lanes modulo
 full turns

---
 src/dg_commons/sim/scenarios/utils_dyn_obstacle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
index a05f0b0..c279954 100644
--- a/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/utils_dyn_obstacle.py
@@ -39,7 +39,8 @@ def infer_lane_from_dyn_obs(dyn_obs: DynamicObstacle, network: LaneletNetwork) -
         for candidate_lane in candidates:
             _, q = candidate_lane.find_along_lane_closest_point_fast(init_position)
             s_prime = angle_from_SE2(q)
-            displacement_angles.append(np.abs(dyn_obs.initial_state.orientation - s_prime))
+            displacement = dyn_obs.initial_state.orientation - s_prime
+            displacement_angles.append(np.abs((displacement + np.pi) % (2 * np.pi) - np.pi))
         return candidates[np.argmin(displacement_angles)]
     else:
         # if we reach this point we did not find any lanelet,
-- 
2.43.0


From bc46fe85f4b8569c2a9bd14167038a1df08be254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 35/53] fix: initial steering of recorded vehicles modulo full
 turns

---
 src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
index 6fc1838..699120e 100644
--- a/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
+++ b/src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py
@@ -1,3 +1,5 @@
+from math import pi
+
 from commonroad.geometry.shape import Rectangle as crRectangle
 from commonroad.scenario.obstacle import DynamicObstacle, ObstacleType
 
@@ -28,6 +30,7 @@ def infer_model_from_cr_dyn_obstacle(dyn_obs: DynamicObstacle, color: Color) ->
         assert isinstance(dyn_obs.obstacle_shape, crRectangle)
         l = dyn_obs.obstacle_shape.length * axle_length_ratio
         dtheta = dyn_obs.prediction.trajectory.state_list[0].orientation - dyn_obs.initial_state.orientation
+        dtheta = (dtheta + pi) % (2 * pi) - pi
         delta = dtheta / l
         # x0 = VehicleStateDyn(
         #     x=dyn_obs.initial_state.position[0],
-- 
2.43.0


From e95ae338567e491a7382cccc7228b400acf5a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 36/53] fix: recorded road users that are no vehicles are not
 supported, instead of failing

---
 src/dg_commons/sim/scenarios/convert_from_commonroad.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/scenarios/convert_from_commonroad.py b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
index 690eada..6d9f140 100644
--- a/src/dg_commons/sim/scenarios/convert_from_commonroad.py
+++ b/src/dg_commons/sim/scenarios/convert_from_commonroad.py
@@ -5,7 +5,9 @@ from dg_commons import Color
 from dg_commons.sim import SimModel
 from dg_commons.sim.agents.agent import Agent
 from dg_commons.sim.agents.lane_follower import LFAgent
+from dg_commons.sim.models.vehicle import VehicleModel
 from dg_commons.sim.models.vehicle_dynamic import VehicleModelDyn
+from dg_commons.sim.scenarios import NotSupportedConversion
 from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
 from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs
 
@@ -25,6 +27,8 @@ def model_agent_from_dynamic_obstacle(
     """
 
     model: SimModel = infer_model_from_cr_dyn_obstacle(dyn_obs, color)
+    if not isinstance(model, VehicleModel):
+        raise NotSupportedConversion("No agent for this type of obstacle", commonroad_type=dyn_obs.obstacle_type)
     # Agent
     dglane = infer_lane_from_dyn_obs(dyn_obs=dyn_obs, network=lanelet_network)
     agent = LFAgent(dglane, model_params=model.model_params, model_geo=model.model_geometry)
-- 
2.43.0


From 2c391c44189b4abbca1ceab68d4fe457c5289f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 37/53] fix: animations of runs that do not start at 0

---
 src/dg_commons/sim/simulator_animation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 0834133..84d0dae 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -13,7 +13,7 @@ from tqdm import tqdm
 from zuper_commons.types import ZValueError
 
 from dg_commons import PlayerName, X, Timestamp
-from dg_commons.sim import logger
+from dg_commons.sim import SimTime, logger
 from dg_commons.sim.models.vehicle import VehicleCommands
 from dg_commons.sim.models.vehicle_ligths import (
     lightscmd2phases,
@@ -81,7 +81,7 @@ def create_animation(
         with sim_viz.plot_arena(ax=ax):
             init_log_entry: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(time_begin)
             for pname, plog in init_log_entry.items():
-                lights_colors: LightsColors = get_lights_colors_from_cmds(init_log_entry[pname].commands, t=0)
+                lights_colors: LightsColors = get_lights_colors_from_cmds(init_log_entry[pname].commands, t=time_begin)
                 states[pname], actions[pname] = sim_viz.plot_player(
                     ax=ax,
                     state=plog.state,
@@ -116,8 +116,9 @@ def create_animation(
         return _get_list()
 
     def update_plot(frame: int = 0) -> Iterable[Artist]:
-        t: float = frame * dt / 1000.0
-        log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(t)
+        t_log = SimTime(time_begin) + SimTime(frame * dt) / 1000
+        t = float(t_log)
+        log_at_t: Mapping[PlayerName, LogEntry] = sim_context.log.at_interp(t_log)
         for pname, box_handle in states.items():
             lights_colors: LightsColors = get_lights_colors_from_cmds(log_at_t[pname].commands, t=t)
             states[pname], actions[pname] = sim_viz.plot_player(
-- 
2.43.0


From 13f16af22a423a2c767f5160b7bc5fd19f45895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:04 +0000
Subject: [PATCH 38/53] fix: drawing several polygons, lines, points and
 collections, and holes

---
 src/dg_commons/maps/shapely_viz.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dg_commons/maps/shapely_viz.py b/src/dg_commons/maps/shapely_viz.py
index 9a5d672..693d89f 100644
--- a/src/dg_commons/maps/shapely_viz.py
+++ b/src/dg_commons/maps/shapely_viz.py
@@ -50,7 +50,7 @@ class ShapelyViz:
         elif isinstance(shape, (Polygon, MultiPolygon)):
             self._plot_polys(shape, **style_kwargs)
         elif isinstance(shape, GeometryCollection):
-            for poly in shape:
+            for poly in shape.geoms:
                 self.add_shape(poly, **style_kwargs)
         else:
             raise NotImplementedError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
@@ -65,11 +65,10 @@ class ShapelyViz:
             logger.info("Given shape is empty, returning.")
             return
         # todo
-        x, y = [], []
         if isinstance(shape, MultiPoint):
-            for point in shape:
-                x.append(point.x)
-                y.append(point.y)
+            for point in shape.geoms:
+                self._plot_points(point, **style_kwargs)
+            return
         elif isinstance(shape, Point):
             x, y = map(list, shape.xy)
         else:
@@ -91,7 +90,7 @@ class ShapelyViz:
             x, y = map(list, shape.xy)
             self.ax.plot(x, y, **style_kwargs)
         elif isinstance(shape, MultiLineString):
-            for line in shape:
+            for line in shape.geoms:
                 x, y = map(list, line.xy)
                 self.ax.plot(x, y, **style_kwargs)
         else:
@@ -110,13 +109,19 @@ class ShapelyViz:
         if not isinstance(shape, (Polygon, MultiPolygon)):
             raise TypeError(f"Given `shape` argument is of an unexpected type [{type(shape).__name__}]")
 
+        if isinstance(shape, MultiPolygon):
+            for poly in shape.geoms:
+                self._plot_polys(poly, **style_kwargs)
+            return
+
         xs, ys = self._get_poly_coordinates(shape)
         for idx, xy in enumerate(zip(xs, ys)):
             xy_array = list(zip(*xy))
             if idx == 0:
                 poly = mpatches.Polygon(xy_array, **style_kwargs)
             else:
-                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor())
+                # the holes, not below what they are cut out of
+                poly = mpatches.Polygon(xy_array, facecolor=self.ax.get_facecolor(), zorder=style_kwargs.get("zorder"))
             self.ax.add_patch(poly)
 
     def _get_poly_coordinates(self, shape: Union[Polygon, MultiPolygon]):
-- 
2.43.0


From da412f2b346f1ef18e229a169fb2845531da1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 39/53] fix: road boundaries of networks with less than two
 gates

---
 src/dg_commons/maps/road_bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index b302b13..4cbc70d 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -1,5 +1,5 @@
 from commonroad.scenario.scenario import Scenario
-from shapely import MultiPolygon
+from shapely import MultiLineString, MultiPolygon
 from shapely.geometry import LineString, Polygon
 from shapely.ops import unary_union
 
@@ -44,5 +44,7 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
         ext_bounds = geo.exterior
         for eeg in entrance_exit_gates:
             ext_bounds = ext_bounds.difference(eeg)
-        scenario_bounds += [g for g in ext_bounds.geoms]
+        # with less than two gates there is only one piece
+        pieces = ext_bounds.geoms if isinstance(ext_bounds, MultiLineString) else [ext_bounds]
+        scenario_bounds += [g for g in pieces if not g.is_empty]
     return scenario_bounds, entrance_exit_gates
-- 
2.43.0


From 244b10af7bae186a30f88918700c80e99070e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:53 +0000
Subject: [PATCH 40/53] fix: picture of a collision that could not be resolved

---
 src/dg_commons/sim/collision_visualisation.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dg_commons/sim/collision_visualisation.py b/src/dg_commons/sim/collision_visualisation.py
index bb4179d..48f2e81 100644
--- a/src/dg_commons/sim/collision_visualisation.py
+++ b/src/dg_commons/sim/collision_visualisation.py
@@ -29,18 +29,23 @@ def plot_collision(collision_report: CollisionReport, sim_log: SimLog):
     fig = plt.gca().get_figure()
 
     log_entries: Mapping[PlayerName, LogEntry] = sim_log.at_interp(collision_report.at_time)
-    # common impact point and normals
-    imp_point = collision_report.impact_point.coords[0]
-    n = 0.2 * collision_report.impact_normal
-    plt.plot(*imp_point, "o", zorder=_Zorders.IMPACT_POINT)
-    n_color = "r"
-    plt.arrow(imp_point[0], imp_point[1], n[0], n[1], ec=n_color, fc=n_color, alpha=0.9, zorder=_Zorders.IMPACT_NORMAL)
+    # common impact point and normals (unknown if the collision could not be resolved)
+    if collision_report.impact_point is not None:
+        imp_point = collision_report.impact_point.coords[0]
+        n = 0.2 * collision_report.impact_normal
+        plt.plot(*imp_point, "o", zorder=_Zorders.IMPACT_POINT)
+        n_color = "r"
+        plt.arrow(
+            imp_point[0], imp_point[1], n[0], n[1], ec=n_color, fc=n_color, alpha=0.9, zorder=_Zorders.IMPACT_NORMAL
+        )
     # players
     name = "Dark2"
     cmap: ListedColormap = colormaps[name]
     colors = list(cmap.colors)
     col_before, col_after = "darkorange", "seagreen"
     for i, (player, p_report) in enumerate(collision_report.players.items()):
+        if p_report is None:
+            continue
         p_color = colors[i]
         # vehicle outline
         footprint = p_report.footprint
-- 
2.43.0


From 56b675cb9a9a5b453ddbb8dabf16353c5de8361b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 41/53] fix: collisions with closed lines that start inside the
 other body

---
 src/dg_commons/sim/collision_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index d892a70..fc15a76 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -9,6 +9,7 @@ from geometry import T2value, SO2value, SO2_from_angle, SE2value
 from shapely import GeometryCollection, MultiPoint, MultiLineString
 from shapely.geometry import Polygon, Point, LineString, MultiPolygon
 from shapely.geometry.base import BaseGeometry
+from shapely.ops import linemerge
 from toolz import remove
 
 from dg_commons import X, PlayerName, logger
@@ -32,6 +33,9 @@ def velocity_of_P_given_A(vel: T2value, omega: float, vec_ap: T2value) -> T2valu
 def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[tuple[float, float]]:
     """Returns a list of points"""
     int_shape = a_shape.intersection(b_shape)
+    if isinstance(int_shape, MultiLineString):
+        # a closed line gets cut where it starts
+        int_shape = linemerge(int_shape)
     if isinstance(int_shape, Polygon):
         points = list(int_shape.exterior.coords[:-1])
     elif isinstance(int_shape, LineString):
-- 
2.43.0


From a8f231145c8463bcd4c2763f2a1f379467f22d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:46 +0000
Subject: [PATCH 42/53] fix: contacts at several places in one line crashed the
 simulation or gave undefined states

---
 src/dg_commons/sim/collision_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/collision_utils.py b/src/dg_commons/sim/collision_utils.py
index fc15a76..d4378c2 100644
--- a/src/dg_commons/sim/collision_utils.py
+++ b/src/dg_commons/sim/collision_utils.py
@@ -43,13 +43,17 @@ def _find_intersection_points(a_shape: Polygon, b_shape: BaseGeometry) -> list[t
     elif any(
         isinstance(int_shape, shape_t) for shape_t in [MultiPolygon, MultiLineString, MultiPoint, GeometryCollection]
     ):
-        int_shape: Polygon = int_shape.minimum_rotated_rectangle
+        int_shape = int_shape.minimum_rotated_rectangle
         logger.warn(
             f"Found multiple contact points between two geometries, collision resolution might not be accurate. "
             f"Try a smaller physics step for improved accuracy."
         )
         # this could still lead to some ill-posed cases
-        points = list(int_shape.exterior.coords[:-1])
+        if isinstance(int_shape, Polygon):
+            points = list(int_shape.exterior.coords[:-1])
+        else:
+            # all in one line
+            points = list(int_shape.coords)
     else:
         raise CollisionException(f"Unable to handle intersection shape: {int_shape}")
 
@@ -111,6 +115,8 @@ def compute_impact_geometry(a: Polygon, b: BaseGeometry) -> (np.ndarray, Point):
         first, second = intersecting_points
         dxdy_surface = (second[0] - first[0], second[1] - first[1])
         normal = np.array([-dxdy_surface[1], dxdy_surface[0]])
+        if np.linalg.norm(normal) < 1.0e-9:
+            raise CollisionException("The impact normal of coinciding contact points is undefined")
         normal /= np.linalg.norm(normal)
         r_ap = np.array(impact_point.coords[0]) - np.array(a.centroid.coords[0])
     if np.dot(r_ap, normal) < 0:
-- 
2.43.0


From 88d4749236d06cc3d7a2b298e158c92fea03e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 43/53] fix: the magic formula applied the curvature factor of
 the tyres twice

---
 src/dg_commons/sim/models/tires.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/models/tires.py b/src/dg_commons/sim/models/tires.py
index 37d4ab9..0fd8ae0 100644
--- a/src/dg_commons/sim/models/tires.py
+++ b/src/dg_commons/sim/models/tires.py
@@ -55,4 +55,4 @@ class Pacejka4p(Pacejka):
     "curvature"
 
     def evaluate(self, slip: float) -> float:
-        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - self.E * atan(self.B * slip))))
+        return self.D * sin(self.C * atan(self.B * slip - self.E * (self.B * slip - atan(self.B * slip))))
-- 
2.43.0


From 9c56eaac173b903c1e5d19606308edde507f7b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 44/53] fix: a player's log was drawn into the current figure
 instead of the given one

---
 src/dg_commons/sim/log_visualisation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dg_commons/sim/log_visualisation.py b/src/dg_commons/sim/log_visualisation.py
index 2c14edd..c91523c 100644
--- a/src/dg_commons/sim/log_visualisation.py
+++ b/src/dg_commons/sim/log_visualisation.py
@@ -32,17 +32,17 @@ def plot_player_log(log: PlayerLog, fig: Figure = None):
     for i, field in enumerate(state_fields):
         field_value = [getattr(s, field.name) for s in log.states.values]
         ts = log.states.timestamps
-        fig.add_subplot(rows_number, 1, i + 1)
-        plt.plot(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, i + 1)
+        ax.plot(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     for i, field in enumerate(cmds_fields):
         field_value = [getattr(c, field.name) for c in log.commands.values]
         ts = log.commands.timestamps
-        fig.add_subplot(rows_number, 1, n_states + i + 1)
-        plt.step(ts, field_value, label=field.name)
-        plt.grid()
-        plt.legend()
+        ax = fig.add_subplot(rows_number, 1, n_states + i + 1)
+        ax.step(ts, field_value, label=field.name)
+        ax.grid()
+        ax.legend()
 
     plt.draw()
-- 
2.43.0


From 73a6545eb50da61fa20604976aa1f9d583072e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 45/53] fix: a reversing ego was told to brake infinitely hard

---
 src/dg_commons/eval/safety.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/eval/safety.py b/src/dg_commons/eval/safety.py
index a284f2b..364e8a2 100644
--- a/src/dg_commons/eval/safety.py
+++ b/src/dg_commons/eval/safety.py
@@ -232,7 +232,8 @@ def _get_ttc_of_poly_and_state(poly1: Polygon, poly2: Polygon, state1: X, state2
         # move poly2
         poly2 = translate(poly2, xoff=delta_pos[0], yoff=delta_pos[1])
         time += timestep
-    return time, state1.vx * time, state2.vx * time
+    # distances travelled, also in reverse
+    return time, abs(state1.vx) * time, abs(state2.vx) * time
 
 
 def _remove_finished_players(
-- 
2.43.0


From 3646e949c41b56c079ef8dc420986a5ef7905831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:21 +0000
Subject: [PATCH 46/53] fix: without a buffer the road boundaries closed the
 gates

---
 src/dg_commons/maps/road_bounds.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/maps/road_bounds.py b/src/dg_commons/maps/road_bounds.py
index 4cbc70d..3a42594 100644
--- a/src/dg_commons/maps/road_bounds.py
+++ b/src/dg_commons/maps/road_bounds.py
@@ -17,16 +17,18 @@ def build_road_boundary_obstacle(scenario: Scenario, buffer: float = 0.1) -> tup
     scenario_bounds: list[LineString] = []
     lane_polygons: list[Polygon] = []
     entrance_exit_gates = []
+    # the gates open the boundary also if the lanelets are not enlarged
+    gate_buffer = max(buffer * 2, 1e-2)
     for lanelet in lanelets:
         lane_polygons.append(lanelet.polygon.shapely_object.buffer(buffer))
         if len(lanelet.successor) == 0:
             pt1 = lanelet.right_vertices[-1]
             pt2 = lanelet.left_vertices[-1]
-            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(buffer * 2))
+            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(gate_buffer))
         if len(lanelet.predecessor) == 0:
             pt1 = lanelet.right_vertices[0]
             pt2 = lanelet.left_vertices[0]
-            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(buffer * 2))
+            entrance_exit_gates.append(LineString([pt1, pt2]).buffer(gate_buffer))
 
     overall_poly = unary_union(lane_polygons)
     # if the overall_poly is a Polygon, convert it to a MultiPolygon
-- 
2.43.0


From 328869cfae4fab1e6466cfae0f62b85a42e70034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:53 +0000
Subject: [PATCH 47/53] fix: commands along a trajectory were those of another
 path of the graph between its ends

---
 src/dg_commons/planning/trajectory.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dg_commons/planning/trajectory.py b/src/dg_commons/planning/trajectory.py
index 795e336..bf52c54 100644
--- a/src/dg_commons/planning/trajectory.py
+++ b/src/dg_commons/planning/trajectory.py
@@ -233,10 +233,14 @@ class TrajectoryGraph(DiGraph):
 
         self.check_node(source)
         self.check_node(target)
-        if not has_path(G=self, source=source, target=target):
-            raise ValueError(f"No path exists between {source, target}!")
 
-        nodes = shortest_path(G=self, source=source, target=target)
+        # the nodes that the trajectory goes through, there can be more samples in between
+        via = [node for node in zip(trajectory.timestamps, trajectory.values) if node in self.nodes]
+        nodes = [source]
+        for node1, node2 in zip(via[:-1], via[1:]):
+            if not has_path(G=self, source=node1, target=node2):
+                raise ValueError(f"No path exists between {node1, node2}!")
+            nodes += shortest_path(G=self, source=node1, target=node2)[1:]
         commands = []
         timestamps = []
         for node1, node2 in zip(nodes[:-1], nodes[1:]):
-- 
2.43.0


From 8025ea3bd977090d6e26746f5bf98671ce371a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:53 +0000
Subject: [PATCH 48/53] fix: commands and extras an agent reused for the next
 request changed those applied and logged before

---
 src/dg_commons/sim/simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 1e211b3..6512d46 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -143,12 +143,14 @@ class Simulator:
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
+                # a copy, the agent may go on using (and modifying) its own
+                cmds = deepcopy(cmds)
                 self.last_commands[player_name] = cmds
                 self.simlogger[player_name].commands.add(t=t, v=cmds)
                 self.simlogger[player_name].info.add(t=t, v=toc - tic)
                 extra = agent.on_get_extra()
                 if extra is not None:
-                    self.simlogger[player_name].extra.add(t=t, v=extra)
+                    self.simlogger[player_name].extra.add(t=t, v=deepcopy(extra))
             cmds = self.last_commands[player_name]
             model = sim_context.models[player_name]
             model.update(cmds, dt=sim_context.param.dt)
-- 
2.43.0


From 91231ecf75848094d6110b57e25167ef9d04b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:54 +0000
Subject: [PATCH 49/53] fix: an agent modifying what it observes changed what
 the others observe at the same instant

---
 src/dg_commons/sim/simulator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dg_commons/sim/simulator.py b/src/dg_commons/sim/simulator.py
index 6512d46..7205380 100644
--- a/src/dg_commons/sim/simulator.py
+++ b/src/dg_commons/sim/simulator.py
@@ -6,7 +6,7 @@ from itertools import combinations
 from time import perf_counter
 from typing import Mapping, MutableMapping, Optional
 
-from dg_commons import PlayerName, U, fd
+from dg_commons import PlayerName, U, fd, valmap
 from dg_commons.sim import CollisionReport, SimTime, logger
 from dg_commons.sim.agents.agent import Agent, TAgent
 from dg_commons.sim.collision_utils import CollisionException
@@ -137,9 +137,9 @@ class Simulator:
             state = sim_context.models[player_name].get_state()
             self.simlogger[player_name].states.add(t=t, v=state)
             if self._need_to_update_commands(sim_context):
-                p_observations = sim_context.sensors[player_name].sense(
-                    sim_context.dg_scenario, self.last_observations, player_name
-                )
+                # every player gets its own copy of the snapshot
+                snapshot = replace(self.last_observations, players=fd(valmap(deepcopy, self.last_observations.players)))
+                p_observations = sim_context.sensors[player_name].sense(sim_context.dg_scenario, snapshot, player_name)
                 tic = perf_counter()
                 cmds = agent.get_commands(p_observations)
                 toc = perf_counter()
-- 
2.43.0


From 29ea4802a98bc93d418d7c3fc48a10a54fa5c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:54 +0000
Subject: [PATCH 50/53] fix: a field of view filter used in a second scenario
 saw the static obstacles of the first one

---
 src/dg_commons/sim/sim_perception.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index ddb5528..06673fa 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -1,6 +1,7 @@
 from abc import ABC, abstractmethod
 from bisect import bisect_left
 from dataclasses import replace
+from typing import Optional, Sequence
 
 import numpy as np
 from commonroad_dc.pycrcc import Polygon as crPolygon
@@ -14,6 +15,7 @@ from dg_commons.sim.models import (
     extract_2d_position_from_state,
     extract_pose_from_state,
 )
+from dg_commons.sim.models.obstacles import StaticObstacle
 from dg_commons.sim.scenarios import DgScenario
 
 
@@ -45,6 +47,7 @@ class FovObsFilter(ObsFilter):
     def __init__(self, sensor: Sensor):
         self.sensor: Sensor = sensor
         self._static_obstacles: list[crPolygon] = []
+        self._static_obstacles_of: Optional[Sequence[StaticObstacle]] = None
         self._tmp_debug: int = 0
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
@@ -58,7 +61,9 @@ class FovObsFilter(ObsFilter):
         # first update sensor pose
         self.sensor.pose = SE2Transform.from_SE2(extract_pose_from_state(full_obs.players[pov].state))
         # then filter
-        if not self._static_obstacles:
+        if self._static_obstacles_of is not scenario.static_obstacles:
+            # computed once per scenario
+            self._static_obstacles_of = scenario.static_obstacles
             self._static_obstacles = list(interleave([shapely2crPolygons(o.shape) for o in scenario.static_obstacles]))
 
         self._tmp_debug += 1
-- 
2.43.0


From dd8e2a0a3081a73ae44f8b762a1818b4ecb9892d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:54 +0000
Subject: [PATCH 51/53] fix: a delayed filter used in a second run delivered
 observations of the first one

---
 src/dg_commons/sim/sim_perception.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dg_commons/sim/sim_perception.py b/src/dg_commons/sim/sim_perception.py
index 06673fa..195344c 100644
--- a/src/dg_commons/sim/sim_perception.py
+++ b/src/dg_commons/sim/sim_perception.py
@@ -111,8 +111,13 @@ class DelayedObsFilter(ObsFilter):
         self.obs_filter = obs_filter
         self.latency = latency
         self.obs_history: list[tuple[SimTime, SimObservations]] = []
+        self._last_time: SimTime = SimTime("-Infinity")
 
     def sense(self, scenario: DgScenario, full_obs: SimObservations, pov: PlayerName) -> SimObservations:
+        if full_obs.time < self._last_time:
+            # the time went back, another run has started
+            self.obs_history = []
+        self._last_time = full_obs.time
         obs = self.obs_filter.sense(scenario, full_obs, pov)
         shifted_t = obs.time + self.latency
         self.obs_history.append((shifted_t, replace(obs, time=shifted_t)))
-- 
2.43.0


From bedef8a5942dbcf55d84e34a4a57c1fd54d577f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:33 +0000
Subject: [PATCH 52/53] fix: trajectories an agent plans only after the first
 picture were never drawn

---
 src/dg_commons/sim/simulator_animation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg_commons/sim/simulator_animation.py b/src/dg_commons/sim/simulator_animation.py
index 84d0dae..3a5f1fc 100644
--- a/src/dg_commons/sim/simulator_animation.py
+++ b/src/dg_commons/sim/simulator_animation.py
@@ -139,8 +139,8 @@ def create_animation(
                         ax=ax,
                         player_name=pname,
                         trajectories=list(trajectories),
-                        traj_lines=traj_lines[pname],
-                        traj_points=traj_points[pname],
+                        traj_lines=traj_lines.get(pname),
+                        traj_points=traj_points.get(pname),
                         colors=list(tcolors),
                     )
                 except:
-- 
2.43.0


From b2005f58ea2842cd5d9354888a1712e65ba8011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:55 +0000
Subject: [PATCH 53/53] fix: lane followers gave their test lights in an order
 that changed from one process to the next

---
 src/dg_commons/sim/agents/lane_follower.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dg_commons/sim/agents/lane_follower.py b/src/dg_commons/sim/agents/lane_follower.py
index af489a9..1556d6a 100644
--- a/src/dg_commons/sim/agents/lane_follower.py
+++ b/src/dg_commons/sim/agents/lane_follower.py
@@ -42,7 +42,7 @@ class LFAgent(Agent):
         self.return_extra: bool = return_extra
         self._emergency: bool = False
         self._my_obs: Optional[X] = None
-        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=list(LightsValues))
+        self.lights_test_seq = DgSampledSequence[LightsCmd](timestamps=[0, 2, 4, 6, 8], values=sorted(LightsValues))
 
     def on_episode_init(self, init_sim_obs: InitSimObservations):
         self.my_name = init_sim_obs.my_name
-- 
2.43.0

