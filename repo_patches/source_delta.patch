From ce0f7fbec54139927068be4781dd7b197f7490b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 01/65] fix: serialise a transition's label images whenever
 they are present

The presence of the (unlabelled) image was tested instead, so a label image
without an image was dropped and an image without a label image crashed.
---
 putting_dune/microscope_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index 0930f2f..f20ac76 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -701,12 +701,12 @@ class Transition(ProtoModel[putting_dune_pb2.Transition]):
 
     label_image_before = (
         tf.make_tensor_proto(self.label_image_before)
-        if self.image_before is not None
+        if self.label_image_before is not None
         else None
     )
     label_image_after = (
         tf.make_tensor_proto(self.label_image_after)
-        if self.image_after is not None
+        if self.label_image_after is not None
         else None
     )
 
-- 
2.43.0


From 375128f5bf64460e278ab1cba18f2e0d19a919a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 02/65] fix: keep the fractional part of a drift vector read
 from a proto

---
 putting_dune/microscope_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index f20ac76..d4d4070 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -812,7 +812,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
     num_atoms = len(proto_drift.jitter)
 
     jitter = np.empty((num_atoms, 2), dtype=np.float32)
-    drift = np.empty(2, dtype=np.int32)
+    drift = np.empty(2, dtype=np.float32)
 
     for i, atom in enumerate(proto_drift.jitter):
       jitter[i, 0] = atom.x
-- 
2.43.0


From 4223be7b5e6774fe46196a390b2b51633f172f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 03/65] fix: keep the label image when a drift is applied to an
 observation

---
 putting_dune/microscope_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d4d4070..d7b8177 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -803,6 +803,7 @@ class Drift(ProtoModel[putting_dune_pb2.Drift]):
         controls=observation.controls,
         elapsed_time=observation.elapsed_time,
         image=observation.image,
+        label_image=observation.label_image,
     )
     return shifted_observation
 
-- 
2.43.0


From 0364af49c90da82369f400d44e3f28740e1ec563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 04/65] fix: compare atomic grids without atoms instead of
 raising

---
 putting_dune/microscope_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/putting_dune/microscope_utils.py b/putting_dune/microscope_utils.py
index d7b8177..fc2f6db 100644
--- a/putting_dune/microscope_utils.py
+++ b/putting_dune/microscope_utils.py
@@ -157,6 +157,10 @@ class AtomicGrid(ProtoModel[putting_dune_pb2.AtomicGrid]):
     if self.atomic_numbers.shape != other.atomic_numbers.shape:
       return False
 
+    # The neighbor search cannot be fitted on an empty grid.
+    if not self.atom_positions.size:
+      return True
+
     neighbor_distances, neighbor_indices = (
         neighbors.NearestNeighbors(n_neighbors=1)
         .fit(self.atom_positions)
-- 
2.43.0


From 1e73b6f24bee4497b8c9f666cb1e86375a085ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 05/65] fix: place the human prior's rate peak towards each
 neighbor

The mean is given for a neighbor at (1, 0) and rotate_coordinates rotates
counter-clockwise, so the peak was mirrored to a point with no neighbor.
---
 putting_dune/graphene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 746c636..1d90afc 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -220,7 +220,7 @@ class HumanPriorRatePredictor:
     relative_beam_position /= constants.CARBON_BOND_DISTANCE_ANGSTROMS
     rates = np.zeros((neighbor_indices.shape), dtype=float)
     for i, angle in enumerate(angles):
-      rotated_mean = geometry.rotate_coordinates(self.mean, -angle)
+      rotated_mean = geometry.rotate_coordinates(self.mean, angle)
       rate = single_silicon_prior_rates(
           relative_beam_position, rotated_mean, self.cov, self.max_rate
       )
-- 
2.43.0


From a97a7415bf0472907dcb60e566b6d8373769bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 06/65] fix: do not turn a clipped waiting time into a
 transition

Waiting times were clipped to one hour, so a dwell of an hour or more always
transitioned, even with zero rates (raising in rng.choice).
---
 putting_dune/graphene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/putting_dune/graphene.py b/putting_dune/graphene.py
index 1d90afc..6e9504e 100644
--- a/putting_dune/graphene.py
+++ b/putting_dune/graphene.py
@@ -664,8 +664,11 @@ class PristineSingleDopedGraphene(Material):
       # by an exponential distribution, with the total rate as the
       # parameter. Scale is the inverse rate.
       transition_seconds = rng.exponential(scale=1.0 / rates.total_rate)
-      # Avoid np.inf when using very small rates. Clip arbitrarily to 1 hour.
-      transition_seconds = min(transition_seconds, 3600)
+      # Avoid np.inf when using very small rates. Clip arbitrarily to 1 hour
+      # after the end of the dwell, so that clipping never adds a transition.
+      transition_seconds = min(
+          transition_seconds, control.dwell_time.total_seconds() + 3600
+      )
       transition_time = dt.timedelta(seconds=transition_seconds)
       elapsed_time += transition_time
 
-- 
2.43.0


From fb8488948f82d701fa16666d3bb001b1a3c36502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 07/65] fix: pass the beam voltage and current of a control on
 to the material

---
 putting_dune/simulator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/putting_dune/simulator.py b/putting_dune/simulator.py
index 26618ea..1025bde 100644
--- a/putting_dune/simulator.py
+++ b/putting_dune/simulator.py
@@ -134,11 +134,8 @@ class PuttingDuneSimulator:
     for control in controls:
       # Convert the control from the microscope frame to material frame.
       # TODO(joshgreaves): Control clipping to [0, 1]?
-      control_position = self._fov.microscope_frame_to_material_frame(
-          control.position
-      )
       control = microscope_utils.BeamControlMaterialFrame(
-          microscope_utils.BeamControl(control_position, control.dwell_time)
+          self._fov.microscope_frame_to_material_frame(control)
       )
 
       for observer in self._observers:
-- 
2.43.0


From d51d99b0184b32b1b8cac6d903fe54b02762e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 08/65] fix: give logged episodes the same id as their logged
 steps

The id was incremented before the record was made, so the first episode was
logged as 1 while its steps said 0, and the last two episodes shared an id.
---
 putting_dune/microscope_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 69e07bb..a206654 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -225,8 +225,8 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> None:
     if self._episode_step > 0:
-      self._episode += 1
       self._episode_records.append(self._make_episode_record())
+      self._episode += 1
     if self._current_trajectory:
       self._trajectories.append(
           microscope_utils.Trajectory(self._current_trajectory)
-- 
2.43.0


From 909a79d74fd214be6027a5b73e25ad9066ba088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 09/65] fix: do not log the current episode again on every
 flush

---
 putting_dune/microscope_agent.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index a206654..96e8006 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -188,17 +188,19 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       self.flush()
 
   def flush(self) -> None:
+    # The current episode stays open, so that flushing again (or stepping on)
+    # does not log it twice.
+    trajectories = list(self._trajectories)
     if self._current_trajectory:
-      self._trajectories.append(
-          microscope_utils.Trajectory(self._current_trajectory)
-      )
+      trajectories.append(microscope_utils.Trajectory(self._current_trajectory))
+    episode_records = list(self._episode_records)
     if self._episode_step != 0:
-      self._episode_records.append(self._make_episode_record())
+      episode_records.append(self._make_episode_record())
 
     # Write the records
     pdio.write_records(
         self._logdir / 'trajectories.tfrecords',
-        self._trajectories,
+        trajectories,
     )
 
     # Write steps
@@ -216,7 +218,7 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
           fp, fieldnames=typing.get_type_hints(EpisodeRecord).keys()
       )
       writer.writeheader()
-      for record in self._episode_records:
+      for record in episode_records:
         writer.writerow(record)
 
   def reset(
-- 
2.43.0


From 38055b5a3badc5e0c49dfa9e5a10afd7ad5367ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 10/65] fix: keep logging when the microscope agent rescans for
 a lost silicon

The agent answers an observation without silicon with a rescan, but the
logger raised, ending the session and discarding all of its logs.
---
 putting_dune/microscope_agent.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/putting_dune/microscope_agent.py b/putting_dune/microscope_agent.py
index 96e8006..b61ebc5 100644
--- a/putting_dune/microscope_agent.py
+++ b/putting_dune/microscope_agent.py
@@ -245,9 +245,15 @@ class MicroscopeAgentLogger(wrapt.ObjectProxy):
       observation: microscope_utils.MicroscopeObservation,
   ) -> List[microscope_utils.BeamControlMicroscopeFrame]:
     beam_control = self.__wrapped__.step(observation)
-    goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
-        observation
-    )
+    try:
+      goal_return = self.__wrapped__.goal.calculate_reward_and_terminal(
+          observation
+      )
+    except graphene.SiliconNotFoundError:
+      # The agent rescans in this case, so there is no reward to log.
+      goal_return = goals.GoalReturn(
+          reward=0.0, is_terminal=False, is_truncated=False
+      )
     self._episode_step += 1
     self._episode_return += goal_return.reward
 
-- 
2.43.0


From 32b16cd8a5438b8f7ba9b04ba40a09990cd11f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 11/65] fix: use the same silicon atom for every part of the
 features

The goal delta could not be computed unless there was exactly one silicon,
raising a ValueError (not SiliconNotFoundError) otherwise, and the material
frame features looked for the silicon nearest (0.5, 0.5) angstroms.
---
 putting_dune/feature_constructors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/feature_constructors.py b/putting_dune/feature_constructors.py
index 410f980..ab3aeb6 100644
--- a/putting_dune/feature_constructors.py
+++ b/putting_dune/feature_constructors.py
@@ -66,7 +66,7 @@ def _get_silicon_goal_delta(
     goal: goals.SingleSiliconGoalReaching,
 ) -> np.ndarray:
   """Gets the delta from the current silicon position to goal in angstroms."""
-  silicon_position = graphene.get_silicon_positions(grid).reshape(2)
+  silicon_position = graphene.get_single_silicon_position(grid)
   silicon_position_material_frame = fov.microscope_frame_to_material_frame(
       silicon_position
   )
@@ -188,7 +188,11 @@ class SingleSiliconMaterialFrameFeatureConstructor(FeatureConstructor):
     goal = typing.cast(goals.SingleSiliconGoalReaching, goal)
     grid = observation.fov.microscope_frame_to_material_frame(observation.grid)
 
-    silicon_position = graphene.get_single_silicon_position(grid)
+    # With several silicon atoms the one nearest the center of the FOV is used,
+    # which can only be told in the microscope frame.
+    silicon_position = observation.fov.microscope_frame_to_material_frame(
+        graphene.get_single_silicon_position(observation.grid)
+    )
 
     # Ensure the silicon position shape is correct.
     silicon_position = silicon_position.reshape(2)
-- 
2.43.0


From af03cb8da623853cb6e187ad49184e8de43dc7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 12/65] fix: render the environment after a step

The coordinates of a point have shape (1, 2), so indexing the y coordinate of
the beam position raised an IndexError once a control had been applied.
---
 putting_dune/putting_dune_environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index ccee73b..2363d10 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -170,7 +170,9 @@ class PuttingDuneEnvironment(dm_env.Environment):
     # TODO(joshgreaves): beam_position lags by 1 timestep.
     previous_controls = self.last_microscope_observation.controls
     if previous_controls:
-      beam_position = np.asarray(previous_controls[-1].position.coords)
+      beam_position = np.asarray(
+          previous_controls[-1].position.coords
+      ).reshape(-1)
     else:
       beam_position = None
 
-- 
2.43.0


From 9425ef507651c4a424f548ad0c7af7eaa600a896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 13/65] fix: close the figure of a rendered frame

Every call of render left an open figure behind.
---
 putting_dune/putting_dune_environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/putting_dune_environment.py b/putting_dune/putting_dune_environment.py
index 2363d10..56744d1 100644
--- a/putting_dune/putting_dune_environment.py
+++ b/putting_dune/putting_dune_environment.py
@@ -194,4 +194,5 @@ class PuttingDuneEnvironment(dm_env.Environment):
     fig.canvas.draw()
     img = np.frombuffer(fig.canvas.tostring_rgb(), dtype=np.uint8)
     img = img.reshape(fig.canvas.get_width_height()[::-1] + (3,))
+    plt.close(fig)
     return img
-- 
2.43.0


From 197cb0f26b48b2c0a8c0b10db8e598ca7695d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 14/65] fix: format durations just short of a full second

0.999 s was formatted as 00:00:100.
---
 putting_dune/plotting_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index 8f9a1a1..f5cbdfc 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -36,7 +36,8 @@ def format_timedelta(delta: dt.timedelta) -> str:
   total_seconds = delta.total_seconds()
   minutes = int(total_seconds) // 60
   seconds = int(total_seconds) % 60
-  remainder = round((total_seconds - int(total_seconds)) * 100)
+  # Truncate as for the seconds: rounding can give 100 hundredths.
+  remainder = delta.microseconds // 10_000
   return f'{minutes:02d}:{seconds:02d}:{remainder:02d}'
 
 
-- 
2.43.0


From a4a554db36021643e958518104cdedc726deddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:04 +0000
Subject: [PATCH 15/65] fix: generate videos of episodes without controls

The evaluation times out before the first action if the timeout is short, and
its video could not be drawn.
---
 putting_dune/plotting_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index f5cbdfc..e9b5107 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -198,8 +198,14 @@ def generate_video_from_simulator_events(
     )
     # We make a grid containing just the goal and control to make it easy
     # to convert them to the microscope frame.
+    # There is no control position if no control has been applied yet.
+    has_control = args['control_position'] is not None
     material_frame_data = microscope_utils.AtomicGrid(
-        atom_positions=np.stack([goal_position, args['control_position']]),
+        atom_positions=np.stack(
+            [goal_position, args['control_position']]
+            if has_control
+            else [goal_position]
+        ),
         atomic_numbers=np.asarray(()),  # Unused.
     )
     microscope_frame_data = args['fov'].material_frame_to_microscope_frame(
@@ -209,7 +215,9 @@ def generate_video_from_simulator_events(
         ax=axes[1],
         grid=microscope_grid,
         goal_position=microscope_frame_data.atom_positions[0],
-        control_position=microscope_frame_data.atom_positions[1],
+        control_position=(
+            microscope_frame_data.atom_positions[1] if has_control else None
+        ),
     )
 
     if events_contain_images and args['image'] is not None:
-- 
2.43.0


From f55927b8a3ef6c0768be1d12d191a0ac9cc139e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 16/65] fix: do not keep the figures of videos open

Every evaluated seed left an open figure behind when videos were saved.
---
 putting_dune/plotting_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/plotting_utils.py b/putting_dune/plotting_utils.py
index e9b5107..9242b8a 100644
--- a/putting_dune/plotting_utils.py
+++ b/putting_dune/plotting_utils.py
@@ -266,6 +266,8 @@ def generate_video_from_simulator_events(
   })
 
   anim = animation.FuncAnimation(fig, plot_frame, frames)
+  # The animation keeps the figure, but pyplot should not keep it open as well.
+  plt.close(fig)
   return anim
 
 
-- 
2.43.0


From 5c5d05c1803ad4462605865556f70d44a480b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 17/65] fix: generate grid masks that are not square

Rows are y and columns are x, so the mask needs shape (height, width); any
non-square mask raised an IndexError.
---
 putting_dune/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index 12874d2..fbcd991 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -98,7 +98,7 @@ def generate_grid_mask(
   # We need to work with a grid in the material frame to work out distances
   # in angstroms.
   material_grid = fov.microscope_frame_to_material_frame(grid)
-  mask = np.zeros(image_dimensions, dtype=np.uint8)
+  mask = np.zeros((height, width), dtype=np.uint8)
 
   for pos, atomic_number in zip(
       material_grid.atom_positions, material_grid.atomic_numbers
-- 
2.43.0


From ba0b556f8184441bb943c50d58748cab3d7c5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 18/65] fix: draw round atoms in fields of view that are not
 square

The widths of the blur along rows and columns were swapped.
---
 putting_dune/imaging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/imaging.py b/putting_dune/imaging.py
index fbcd991..2519e3c 100644
--- a/putting_dune/imaging.py
+++ b/putting_dune/imaging.py
@@ -158,7 +158,8 @@ def generate_clean_image(
   # For example, at 512 pixels with 20 angstrom FOV => sigma = 12
   # => sigma = 200 / FOV ~= image_size / (2 * FOV)
   # Empirically, this looks about right.
-  sigma = (image_size / (2.15 * fov_width), image_size / (2.15 * fov_height))
+  # The rows of the image are y, and its columns are x.
+  sigma = (image_size / (2.15 * fov_height), image_size / (2.15 * fov_width))
 
   image = ndimage.gaussian_filter(image, sigma, mode='constant')
 
-- 
2.43.0


From b7932dc41dc6d75aa3885b47bff901207a3e986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 19/65] fix: classify lattice atoms independently of the order
 and wrap-around of bond angles

The classifier was trained on sorted bond angles but applied to unsorted ones,
and sorted angles still depend on where they wrap around.
---
 putting_dune/alignment.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 2caa0e0..f09cc08 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -826,6 +826,27 @@ def naive_merge(
   return positions, counts
 
 
+def _get_bond_orientations(
+    relative_neighbor_positions: np.ndarray,
+) -> np.ndarray:
+  """Describes the three-fold orientation of the bonds of each atom.
+
+  The bonds of an atom are 120 degrees apart, so three times their angles is
+  the same direction for all of them. It is opposite for the two sublattices and
+  depends neither on the order of the neighbors nor on where angles wrap around.
+
+  Args:
+    relative_neighbor_positions: (num_atoms, 3, 2) offsets to the neighbors.
+
+  Returns:
+    (num_atoms, 2) mean of the tripled bond directions.
+  """
+  angles = 3 * np.stack(
+      [geometry.get_angles(x) for x in relative_neighbor_positions]
+  )
+  return np.stack([np.cos(angles), np.sin(angles)], axis=-1).mean(axis=1)
+
+
 def get_lattice_clusterer(grid: np.ndarray) -> cluster.KMeans:
   """Trains a K-Means model to classify lattice atoms based on bond angles.
 
@@ -847,13 +868,8 @@ def get_lattice_clusterer(grid: np.ndarray) -> cluster.KMeans:
   neighbor_positions = grid[neighbors]
   relative_neighbor_positions = neighbor_positions - grid[:, None]
 
-  angles = np.stack(
-      [geometry.get_angles(x) for x in relative_neighbor_positions]
-  )
-  angles = np.sort(angles, axis=-1)
-
   clusters = cluster.KMeans(2)
-  clusters.fit(angles)
+  clusters.fit(_get_bond_orientations(relative_neighbor_positions))
   return clusters
 
 
@@ -882,10 +898,9 @@ def classify_lattice_types(
   neighbor_positions = grid[neighbors]
   relative_neighbor_positions = neighbor_positions - grid[:, None]
 
-  angles = np.stack(
-      [geometry.get_angles(x) for x in relative_neighbor_positions]
+  classes = clusters.predict(
+      _get_bond_orientations(relative_neighbor_positions)
   )
-  classes = clusters.predict(angles)
   classes = propagate_graphene_classes(classes, grid)
 
   return classes
-- 
2.43.0


From d0dbf84d566420fa14131b6d518c68de5e896c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 20/65] fix: do not accumulate drift in the initial shift given
 to align_latest

The default initial shift was modified in place, so that every call started
from the drift of the previous one.
---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index f09cc08..20a1f69 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -121,7 +121,7 @@ def align_latest(
   if init_shift is None:
     cumulative_drift = np.zeros(new_coordinates.shape[-1])
   else:
-    cumulative_drift = init_shift
+    cumulative_drift = np.array(init_shift, dtype=float)
   noise_scales = np.linspace(noise_scale, 0, num=iterations)
   class_masks = [new_classes == i for i in set(new_classes)]
   reference_class_masks = [reference_classes == i for i in set(new_classes)]
-- 
2.43.0


From 179190aefbdc4005d68449db6edface17558439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 21/65] fix: do not merge atoms into the first grid in place

naive_merge modified its input, and with it the history of the aligner and the
first observation of its caller.
---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 20a1f69..301598e 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -801,7 +801,7 @@ def naive_merge(
       mapped to each merged point.
   """
   coordinates = [c for c in coordinates if c.shape[0]]
-  positions = coordinates[0]
+  positions = np.array(coordinates[0], dtype=float)
   counts = np.ones(coordinates[0].shape[:1])
 
   for m in coordinates[1:]:
-- 
2.43.0


From 6ea9325da3fd9d77e546e03cb319d09f79bed761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 22/65] fix: keep the drift finite when no atoms are close
 enough to align to

---
 putting_dune/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 301598e..78527ff 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -144,7 +144,8 @@ def align_latest(
       sorted_distances = np.argsort(distances)
       offsets = offsets[sorted_distances[: int((1 - trim) * len(offsets))]]
 
-    offset = offsets.mean(axis=0)
+    # Without any pair of atoms close enough there is nothing to align to.
+    offset = offsets.mean(axis=0) if len(offsets) else np.zeros((2,))
     cumulative_drift += noise + offset
     drift_norm = np.linalg.norm(cumulative_drift)
     if drift_norm > max_shift:
-- 
2.43.0


From e74dfb31cf87f62bbbc86e11b08bc1ab641792c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 23/65] fix: detect each atom once

Distances of more than a pixel wrapped around, which punched holes into blobs
and reported an additional atom for every one of them.
---
 putting_dune/atom_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 69c9742..757a942 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -51,7 +51,7 @@ def compute_centroids(
 
   # Perform distance transform on the masked image
   dists = cv2.distanceTransform(masked, cv2.DIST_L2, cv2.DIST_MASK_PRECISE)
-  dists = (dists * 255).astype(np.uint8)
+  dists = np.clip(dists * 255, 0, 255).astype(np.uint8)
 
   # Threshold the distances by the threshold value.
   _, dists = cv2.threshold(dists, threshold_value, 255, cv2.THRESH_BINARY)
-- 
2.43.0


From 158ac74ba4c396b45b5a08c3da514a9ba7e37a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 24/65] fix: report atoms of a single pixel at their place
 instead of a corner

---
 putting_dune/atom_detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 757a942..d07b838 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -71,7 +71,8 @@ def compute_centroids(
       c_x = int(m["m10"] / m["m00"])
       c_y = int(m["m01"] / m["m00"])
     else:
-      c_x, c_y = 0, 0
+      # Blobs without an area, e.g. single pixels.
+      c_x, c_y = contour.reshape(-1, 2).mean(axis=0).astype(int)
 
     # Normalize centroid values so that 0,0 is bottom left and 1,1 is top right
     centroids.append((c_x / 256, 1.0 - c_y / 256))
-- 
2.43.0


From e7b5a9c93ac35f561b8f008b9004494f2a0cc32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 25/65] fix: mask silicon that overlaps with carbon

The exclusive or of the bits of the probabilities reported silicon wherever the
probability of silicon underflowed to zero below a carbon atom.
---
 putting_dune/atom_detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index d07b838..ac35fe4 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -160,7 +160,9 @@ class AtomDetector:
     # Mask the silicon segmentation with the dilated carbon segmentation.
 
     # Mask out any silicon that overlaps with likely carbon
-    masked_silicon_probs = cv2.bitwise_xor(silicon_probs, dilated_carbon_probs)
+    masked_silicon_probs = np.where(
+        dilated_carbon_probs > 0, 0.0, silicon_probs
+    )
 
     # Find the centroids for both the carbon and silicon layers
     carbon_centroids = compute_centroids(carbon_probs.astype(np.uint8), 1, 25)
-- 
2.43.0


From 73bb4d58484d45775f8ba8e894b889bad59aaf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 26/65] fix: detect atoms in images without carbon or without
 silicon

---
 putting_dune/atom_detector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index ac35fe4..96c692b 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -178,11 +178,11 @@ class AtomDetector:
 
     return microscope_utils.AtomicGridMicroscopeFrame(
         microscope_utils.AtomicGrid(
-            atom_positions=np.concatenate(
-                [carbon_centroids, silicon_centroids]
-            ),
+            atom_positions=np.array(
+                carbon_centroids + silicon_centroids
+            ).reshape(-1, 2),
             atomic_numbers=np.concatenate(
                 [carbon_atomic_numbers, silicon_atomic_numbers]
-            ),
+            ).astype(np.int32),
         )
     )
-- 
2.43.0


From 231fe0c1f11ae2f2814fce30da2897f771e0b765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 27/65] fix: normalise detected positions by the side they lie
 along

---
 putting_dune/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 78527ff..453b3dd 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -400,7 +400,7 @@ class ImageAligner:
         c_x, c_y = 0, 0
 
       # Normalize so that 0,0 is bottom left and 1,1 is top right
-      centroids.append((c_x / classes.shape[0], 1.0 - c_y / classes.shape[1]))
+      centroids.append((c_x / classes.shape[1], 1.0 - c_y / classes.shape[0]))
     return centroids
 
   @classmethod
-- 
2.43.0


From ea10778f004811a787aa3d7c1bc4abd27d560785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 28/65] fix: find the record files of a directory of
 trajectories

Records are read from .tfrecords files only, so that a directory was aligned to
an empty file.
---
 putting_dune/pipeline/align_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/align_trajectories.py b/putting_dune/pipeline/align_trajectories.py
index 5d681e4..4c215d1 100644
--- a/putting_dune/pipeline/align_trajectories.py
+++ b/putting_dune/pipeline/align_trajectories.py
@@ -94,7 +94,7 @@ def do_alignment(
 def main(args: Args) -> None:
   trajectories = []
   if args.source_path.is_dir():
-    files = list(args.source_path.glob('*.recordio'))
+    files = list(args.source_path.glob('*.tfrecords'))
   else:
     files = [args.source_path]
   for file in files:
-- 
2.43.0


From f2d83ebf7f57e51c5896df826f4b32882b02a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 29/65] fix: do not take a partial copy of model weights for a
 complete one

A download or extraction that failed left a directory behind, which was taken
for the model from then on.
---
 putting_dune/alignment.py            |  6 ++----
 putting_dune/atom_detector.py        |  6 ++----
 putting_dune/experiments/registry.py |  5 ++---
 putting_dune/io.py                   | 22 +++++++++++++++++++++-
 4 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 453b3dd..3c9e35c 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -19,7 +19,6 @@ import copy
 import functools
 import typing
 from typing import Any, Deque, Optional, Sequence, Tuple
-import zipfile
 
 import cv2
 from etils import epath
@@ -27,6 +26,7 @@ import networkx as nx
 import numpy as np
 from putting_dune import constants
 from putting_dune import geometry
+from putting_dune import io as pdio
 from putting_dune import microscope_utils
 import scipy.spatial
 import scipy.stats
@@ -482,10 +482,8 @@ class ImageAligner:
       workdir = epath.resource_path('putting_dune')
     model_path = epath.Path(workdir) / 'model_weights' / 'image-alignment-model'
     if not model_path.exists() or reload:
-      model_path.mkdir(parents=True, exist_ok=True)
       with path.open('rb') as model_zip_fp:
-        with zipfile.ZipFile(model_zip_fp) as model_zip:
-          model_zip.extractall(model_path.parent)
+        pdio.extract_model(model_zip_fp, model_path)
 
     return ImageAligner(model_path=model_path, **kwargs)
 
diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index 96c692b..d0f59ab 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -18,13 +18,13 @@ import functools
 import io
 from typing import Any, List, Tuple
 import urllib
-import zipfile
 
 import cv2
 from etils import epath
 import numpy as np
 import numpy.typing as npt
 from putting_dune import constants
+from putting_dune import io as pdio
 from putting_dune import microscope_utils
 import tensorflow as tf
 
@@ -109,10 +109,8 @@ class AtomDetector:
     )
 
     if not model_path.exists():
-      model_path.mkdir(parents=True)
       with urllib.request.urlopen(url) as request:
-        with zipfile.ZipFile(io.BytesIO(request.read())) as model_zip:
-          model_zip.extractall(model_path.parent)
+        pdio.extract_model(io.BytesIO(request.read()), model_path)
 
     return AtomDetector(model_path=model_path)
     # pylint: enable=unreachable
diff --git a/putting_dune/experiments/registry.py b/putting_dune/experiments/registry.py
index 9f7df26..65de2aa 100644
--- a/putting_dune/experiments/registry.py
+++ b/putting_dune/experiments/registry.py
@@ -19,7 +19,6 @@ import datetime as dt
 import functools
 from typing import Callable, Optional, Tuple
 import urllib.request
-import zipfile
 
 from absl import logging
 from etils import epath
@@ -30,6 +29,7 @@ from putting_dune import constants
 from putting_dune import feature_constructors
 from putting_dune import goals
 from putting_dune import graphene
+from putting_dune import io as pdio
 from putting_dune.agents import agent_lib
 from putting_dune.agents import tf_eval_agent
 from putting_dune.experiments import experiments
@@ -101,8 +101,7 @@ class _TfAgentCreator:
       )
 
       logging.info('Unzipping agent checkpoint...')
-      with zipfile.ZipFile(zip_path_str, mode='r') as zf:
-        zf.extractall(model_weights_path)
+      pdio.extract_model(zip_path_str, model_path)
 
       # Delete the zip file.
       zip_path.unlink()
diff --git a/putting_dune/io.py b/putting_dune/io.py
index e5e531f..58ed39e 100644
--- a/putting_dune/io.py
+++ b/putting_dune/io.py
@@ -15,8 +15,11 @@
 """IO Utilities."""
 import contextlib
 import os
+import shutil
+import tempfile
 import typing
-from typing import Iterable, Iterator, Literal, Type, TypeVar
+from typing import IO, Iterable, Iterator, Literal, Type, TypeVar
+import zipfile
 
 from etils import epath
 from putting_dune import microscope_utils
@@ -80,3 +83,20 @@ def write_records(
       match writer:
         case tf.io.TFRecordWriter():
           writer.write(record)
+
+
+def extract_model(zip_file: PathLike | IO[bytes], model_path: PathLike) -> None:
+  """Extracts a zipped model, such that it exists only once it is complete.
+
+  Args:
+    zip_file: Zip file, which contains a directory named like the model path.
+    model_path: Directory of the model. An existing one is replaced.
+  """
+  model_path = epath.Path(model_path)
+  model_path.parent.mkdir(parents=True, exist_ok=True)
+  with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
+    with zipfile.ZipFile(zip_file) as model_zip:
+      model_zip.extractall(tmpdir)
+    if model_path.exists():
+      shutil.rmtree(model_path)
+    os.rename(os.path.join(tmpdir, model_path.name), model_path)
-- 
2.43.0


From 6356a26299ff0f8982c4b019f9b7c2a4217fbe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 30/65] fix: propagate atomic numbers into a copy of the given
 ones

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index 3c9e35c..e762f82 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -776,6 +776,8 @@ def propagate_atomic_numbers(
         merged_atom_positions.shape[0], dtype=original_atomic_numbers.dtype
     )
     new_atomic_numbers.fill(default_atomic_number)
+  else:
+    new_atomic_numbers = new_atomic_numbers.copy()
 
   new_atomic_numbers[closest_neighbors] = original_atomic_numbers[
       original_atoms
-- 
2.43.0


From d9bd235af7611247d199e44e4102dc8c5132d389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 31/65] fix: detect atoms in double precision images

The saved model takes single precision images, while simulated images are double
precision.
---
 putting_dune/atom_detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/putting_dune/atom_detector.py b/putting_dune/atom_detector.py
index d0f59ab..62558a2 100644
--- a/putting_dune/atom_detector.py
+++ b/putting_dune/atom_detector.py
@@ -131,6 +131,7 @@ class AtomDetector:
         (256, 256),
         method="nearest",
     )
+    image = tf.cast(image, tf.float32)
     image_min, image_max = tf.reduce_min(image), tf.reduce_max(image)
     image = (image - image_min) / (image_max - image_min)
 
-- 
2.43.0


From 3b2231e086f2bd68999aa39bc4133741311b8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 32/65] fix: exclude transitions with too few atoms instead of
 failing

---
 putting_dune/pipeline/train_rate_learner.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 081695a..bd2f7e2 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -354,6 +354,9 @@ def transitions_to_datapoints(
       continue
 
     # Get the neighbors of the grid before.
+    if grid_before.atom_positions.shape[0] < 1 + 9:
+      wrong_number_of_neighbors_count += 1
+      continue
     _, neighbor_indices_before = (
         skneighbors.NearestNeighbors(
             n_neighbors=1 + 9,
@@ -392,6 +395,9 @@ def transitions_to_datapoints(
 
     neighbor_positions_before = neighbor_positions_before[:4]
     # Get the neighbors of the grid after.
+    if grid_after.atom_positions.shape[0] < 1 + 3:
+      wrong_number_of_next_step_neighbors_count += 1
+      continue
     _, neighbor_indices_after = (
         skneighbors.NearestNeighbors(
             n_neighbors=1 + 3,
-- 
2.43.0


From 3962a70cbf20b6dda189f46c16f86270b643c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:53 +0000
Subject: [PATCH 33/65] fix: plotting a transition no longer fails on the image
 size

---
 putting_dune/pipeline/train_rate_learner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index bd2f7e2..039d3b4 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -263,8 +263,8 @@ def plot_transition(
     position = neighbor_positions[neighbor_order[i] + 1]
     position = fov_before.material_frame_to_microscope_frame(position)
     plt.scatter(
-        imsize[0] * position[0],
-        imsize[1] - imsize[1] * position[1],
+        imsize * position[0],
+        imsize - imsize * position[1],
         marker='x' if i + 1 == next_state else '+',
         label='Neighbor {}'.format(i + 1),
     )
-- 
2.43.0


From d2ac56c333d16d5679302d4cd2ef97ac4acea082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 34/65] fix: draw synthetic rates around the neighbor they
 belong to

---
 putting_dune/rate_learning/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index f5b457f..9536785 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -249,8 +249,11 @@ def generate_synthetic_data(
         constants.SIGR_PRIOR_RATE_COV * 1.5,
     )
     context = jax.random.normal(context_key, shape=(context_dim,))
+    # Neighbor n lies at angle 2 * pi * n / num_states, so the beam is turned by
+    # the negative of that angle to be seen from the neighbor's direction.
+    rotations = get_all_position_rotations(position, num_states=num_states)
     rates = graphene.single_silicon_prior_rates(  # pytype: disable=wrong-arg-types  # jnp-type
-        get_all_position_rotations(position, num_states=num_states),
+        rotations[-jnp.arange(num_states)],
         mean=constants.SIGR_PRIOR_RATE_MEAN,
         cov=constants.SIGR_PRIOR_RATE_COV,
         max_rate=constants.SIGR_PRIOR_MAX_RATE,
-- 
2.43.0


From e9d426ba229431eb011be88b245717ea3ba353d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 35/65] fix: bootstrap data sets all samples of which are drawn

---
 putting_dune/rate_learning/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/data_utils.py b/putting_dune/rate_learning/data_utils.py
index 9536785..60ae5d4 100644
--- a/putting_dune/rate_learning/data_utils.py
+++ b/putting_dune/rate_learning/data_utils.py
@@ -323,7 +323,7 @@ def bootstrap_dataset(data: Mapping[str, np.ndarray], rng: jnp.ndarray):
   )
   train_data = {k: a[indices] for k, a in data.items()}
   test_indices = set(range(original_length)) - set(np.array(indices))
-  test_indices = np.array(list(test_indices))
+  test_indices = np.array(list(test_indices), dtype=int)
   test_data = {k: a[test_indices] for k, a in data.items()}
   return train_data, test_data
 
-- 
2.43.0


From 96eb7492ae32a7860f49bbbc4d81970cc494a48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:34 +0000
Subject: [PATCH 36/65] fix: create data sets of transitions without a context

---
 putting_dune/rate_learning/learn_rates.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7bd6898..f4f5aae 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -550,6 +550,9 @@ def create_dataset_splits(
     Training datasets and testing datasets, stacked along axis 0.
   """
 
+  # The context is optional.
+  train_data = {k: v for k, v in train_data.items() if v is not None}
+
   data_keys = jax.random.split(key, num_splits)
   if bootstrap:
     datasets = [
@@ -575,9 +578,9 @@ def create_dataset_splits(
     ]
     test_datasets = [data_utils.augment_data(**data) for data in test_datasets]
 
-  test_set_len = min([a['context'].shape[0] for a in test_datasets])
+  test_set_len = min([a['next_state'].shape[0] for a in test_datasets])
   test_datasets = [
-      {k: a[:test_set_len] for k, a in d.items()} for d in test_datasets
+      {k: d[k][:test_set_len] for k in train_data.keys()} for d in test_datasets
   ]
 
   train_datasets = {
@@ -587,15 +590,12 @@ def create_dataset_splits(
       k: jnp.stack([d[k] for d in test_datasets]) for k in train_data.keys()
   }
 
-  if 'position' in train_datasets and 'context' in train_datasets:
-    train_datasets['context'] = jnp.concatenate(
-        [train_datasets['context'], train_datasets['position']], -1
-    )
-    test_datasets['context'] = jnp.concatenate(
-        [test_datasets['context'], test_datasets['position']], -1
-    )
-    del train_datasets['position']
-    del test_datasets['position']
+  if 'position' in train_datasets:
+    for datasets in (train_datasets, test_datasets):
+      position = datasets.pop('position')
+      if 'context' in datasets:
+        position = jnp.concatenate([datasets['context'], position], -1)
+      datasets['context'] = position
 
   return train_datasets, test_datasets
 
-- 
2.43.0


From 1b522aac711505eb25ec9353409447e9c71e72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 37/65] fix: pair each transition with its own prediction in
 the rate loss

---
 putting_dune/rate_learning/learn_rates.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index f4f5aae..bd01131 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -130,6 +130,11 @@ def batched_loss_fn(
   Returns:
     Mean loss, tuple of (predicted rates, rate loss, classification loss).
   """
+  # Datasets may hold these as columns, which must not broadcast against rates.
+  next_state = next_state.reshape(-1)
+  elapsed_time = elapsed_time.reshape(-1)
+  did_transition = did_transition.reshape(-1)
+
   predicted_rates, network_state = apply_fn(
       params, network_state, key, context, is_training
   )
-- 
2.43.0


From bf0496399dea815a7fc9f2a273334ba06e03bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 38/65] fix: report the rates of all next states from the rate
 loss

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index bd01131..d25022f 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -153,7 +153,7 @@ def batched_loss_fn(
       next_state_logprobs[jnp.arange(next_state.shape[0]), next_state - 1]
       * did_transition
   )
-  next_state_probs = jax.nn.softmax(predicted_rates[:, -1:], axis=-1)
+  next_state_probs = jax.nn.softmax(predicted_rates[:, :-1], axis=-1)
 
   losses = (
       next_state_loss * class_loss_weight + total_rate_loss * rate_loss_weight
-- 
2.43.0


From 9a05842e861ac4a27fc0a4615bea15b32d654090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 39/65] fix: predict learned rates for a given voltage and
 current

---
 putting_dune/rate_learning/learn_rates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index d25022f..4452dc7 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -964,9 +964,9 @@ class LearnedTransitionRatePredictor:
     )
     context = new_beam_pos
     if self.config.use_voltage:
-      context = np.concatenate([voltage_kv, context], axis=-1)
+      context = np.concatenate([[[voltage_kv]], context], axis=-1)
     if self.config.use_current:
-      context = np.concatenate([current_na, context], axis=-1)
+      context = np.concatenate([[[current_na]], context], axis=-1)
 
     rates = np.asarray(self.packaged_model(context))[0]
 
-- 
2.43.0


From a138434862b9f1c8a006cf44bc97ba0d9b1c23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 40/65] fix: package learned models as per-neighbor rates of
 the whole ensemble

---
 putting_dune/rate_learning/learn_rates.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 4452dc7..7043997 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -658,6 +658,13 @@ def train_multiple_models(
   )
 
 
+def combine_rates(outputs: jnp.ndarray) -> jnp.ndarray:
+  """Combines the raw outputs of an ensemble to the mean rate per neighbor."""
+  total_rate = outputs[..., -1:]
+  weights = jax.nn.softmax(outputs[..., :-1], axis=-1)
+  return (total_rate * weights).mean(0)
+
+
 class LearnedTransitionRatePredictor:
   """Class wrapping rate learning and prediction."""
 
@@ -732,9 +739,7 @@ class LearnedTransitionRatePredictor:
       )
       rates = rates[None]
 
-    total_rate = rates[..., -1:]
-    weights = jax.nn.softmax(rates[..., :-1], axis=-1)
-    return (total_rate * weights).mean(0)
+    return combine_rates(rates)
 
   def train(
       self,
@@ -905,7 +910,7 @@ class LearnedTransitionRatePredictor:
       rates, _ = self.batch_apply(
           self.params, self.state, context, self.rng, False
       )
-      return jnp.squeeze(rates, axis=0)
+      return combine_rates(rates)
 
     apply_model = functools.partial(apply_model, fixed_context=fixed_context)
     apply_model = jax.jit(apply_model)
-- 
2.43.0


From 5d1e107d9e7e23104e1bfacde32dd990279eca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 41/65] fix: give learned rate models the beam position in
 angstroms, as in training

---
 putting_dune/rate_learning/learn_rates.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 7043997..c8e8a76 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -31,7 +31,6 @@ import matplotlib.pyplot as plt
 from ml_collections import config_dict
 import numpy as np
 import optax
-from putting_dune import constants
 from putting_dune import geometry
 from putting_dune import microscope_utils
 from putting_dune.rate_learning import data_utils
@@ -962,7 +961,6 @@ class LearnedTransitionRatePredictor:
     neighbor_positions = grid.atom_positions[neighbor_indices, :]
     neighbor_positions = neighbor_positions - current_position
     beam_pos = beam_pos - current_position
-    beam_pos = beam_pos / constants.CARBON_BOND_DISTANCE_ANGSTROMS
     new_beam_pos, _, neighbor_order = data_utils.standardize_beam_and_neighbors(
         beam_pos,
         neighbor_positions,
-- 
2.43.0


From 3eeed7f6455dbe2a74eac79f6f82f485f1d7c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:10 +0000
Subject: [PATCH 42/65] fix: save and restore the network state of learned rate
 models

---
 putting_dune/rate_learning/learn_rates.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index c8e8a76..38b896b 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -853,6 +853,9 @@ class LearnedTransitionRatePredictor:
     path = epath.Path(checkpoint_path)
     with path.open('wb') as f:
       f.write(flax.serialization.to_bytes(self.params))
+    state_path = epath.Path(os.path.join(save_dir, str(step) + '.state.ckpt'))
+    with state_path.open('wb') as f:
+      f.write(flax.serialization.to_bytes(self.state))
 
     self.package_model(fixed_context=fixed_context)
     logging.info('Saving tf saved model to %s', save_dir)
@@ -881,6 +884,10 @@ class LearnedTransitionRatePredictor:
       path = epath.Path(checkpoint_path)
       with path.open('rb') as f:
         self.params = flax.serialization.from_bytes(self.params, f.read())
+      state_path = epath.Path(os.path.join(load_dir, str(step) + '.state.ckpt'))
+      if state_path.exists():  # Older checkpoints hold the parameters only.
+        with state_path.open('rb') as f:
+          self.state = flax.serialization.from_bytes(self.state, f.read())
     self.packaged_model = tf.saved_model.load(load_dir)
 
     if load_config:
-- 
2.43.0


From 86e1107c7493013fba6beca5700c44cca008ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:46 +0000
Subject: [PATCH 43/65] fix: predict with freshly packaged learned rate models

---
 putting_dune/rate_learning/learn_rates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 38b896b..5c9f090 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -978,7 +978,9 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
-    rates = np.asarray(self.packaged_model(context))[0]
+    # A freshly packaged tf.Module is not callable itself, as __call__ is an
+    # attribute of the instance.
+    rates = np.asarray(self.packaged_model.__call__(context))[0]
 
     # neighbor_order is an array mapping the canonical order of neighbors
     # (increasing angle from (1, 0)) to the order they were given in.
-- 
2.43.0


From 473a6948c6023b066f9b47ac147686ddf0dba49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 44/65] fix: initialise batch-normalised rate models for
 batches of inputs

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 5c9f090..84e355a 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -688,7 +688,7 @@ class LearnedTransitionRatePredictor:
     all_params = []
     all_states = []
     for key in keys:
-      params, state = self.init_fn(x=jnp.zeros(self.context_dim), rng=key)
+      params, state = self.init_fn(x=jnp.zeros((1, self.context_dim)), rng=key)
       all_params.append(params)
       all_states.append(state)
     self.params = tree_stack(all_params)
-- 
2.43.0


From 40bb3706d21e5634b59c164cba53b28448443010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:48 +0000
Subject: [PATCH 45/65] fix: predict with learned rate models packaged for a
 fixed context

---
 putting_dune/rate_learning/learn_rates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 84e355a..052e399 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -936,6 +936,9 @@ class LearnedTransitionRatePredictor:
         ],
     )
 
+    # Lets predict know which inputs are left when some of them are fixed.
+    tf_module.input_dim = tf.Variable(input_shape[1], trainable=False)
+
     self.packaged_model = tf_module
 
   def predict(
@@ -978,6 +981,9 @@ class LearnedTransitionRatePredictor:
     if self.config.use_current:
       context = np.concatenate([[[current_na]], context], axis=-1)
 
+    if hasattr(self.packaged_model, 'input_dim'):
+      context = context[:, -int(self.packaged_model.input_dim) :]
+
     # A freshly packaged tf.Module is not callable itself, as __call__ is an
     # attribute of the instance.
     rates = np.asarray(self.packaged_model.__call__(context))[0]
-- 
2.43.0


From 294349896f0b691fdc723139982fb599d7921d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 46/65] fix: pass the learning rate of sklearn perceptrons as a
 number

---
 putting_dune/pipeline/train_rate_learner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 039d3b4..3994d0a 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -131,7 +131,7 @@ def get_sklearn_classifier(
     model = sknn.MLPClassifier(
         alpha=config.weight_decay,
         max_iter=config.epochs,
-        learning_rate=config.learning_rate,
+        learning_rate_init=config.learning_rate,
         **kwargs,
     )
   elif learner_type == LearnerType.KNN:
-- 
2.43.0


From 460813784f4737e4dc8e15ddac32c25e13c92a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 47/65] fix: train support vector machines that predict
 probabilities

---
 putting_dune/pipeline/train_rate_learner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 3994d0a..6ad2deb 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -145,7 +145,8 @@ def get_sklearn_classifier(
         max_depth=5, n_estimators=10, **kwargs
     )
   elif learner_type == LearnerType.SVM:
-    model = sksvm.SVC(gamma=2, C=1, **kwargs)
+    # The ensemble averages class probabilities.
+    model = sksvm.SVC(gamma=2, C=1, probability=True, **kwargs)
   else:
     raise ValueError('Invalid learner type specified.')
 
-- 
2.43.0


From 03cee78bf3912c42ecc7dd8c64d83c422465d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 48/65] fix: count the dwell time among the inputs of
 classification networks

---
 putting_dune/pipeline/train_rate_learner.py | 5 ++++-
 putting_dune/rate_learning/learn_rates.py   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 6ad2deb..89961e6 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -709,7 +709,10 @@ def main(args: Args) -> None:
       ),
   )
 
-  frozen_config = config_dict.FrozenConfigDict(dataclasses.asdict(args))
+  frozen_config = config_dict.FrozenConfigDict({
+      **dataclasses.asdict(args),
+      'dwell_time_in_context': args.learner_type != LearnerType.RATE_NETWORK,
+  })
 
   if (
       args.learner_type == LearnerType.RATE_NETWORK
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 052e399..3130f79 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -684,6 +684,7 @@ class LearnedTransitionRatePredictor:
         dropout_rate=config.dropout_rate,
     )
     self.context_dim = position_dim + config.use_current + config.use_voltage
+    self.context_dim += config.get('dwell_time_in_context', False)
     self.rng, *keys = jax.random.split(init_key, self.num_models + 1)
     all_params = []
     all_states = []
-- 
2.43.0


From f2540729da1d0a251877900e62eab95b03047297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 49/65] fix: learn rates from transitions without a context

---
 putting_dune/pipeline/train_rate_learner.py |  8 +++++---
 putting_dune/rate_learning/learn_rates.py   | 12 +++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/putting_dune/pipeline/train_rate_learner.py b/putting_dune/pipeline/train_rate_learner.py
index 89961e6..5806094 100644
--- a/putting_dune/pipeline/train_rate_learner.py
+++ b/putting_dune/pipeline/train_rate_learner.py
@@ -726,7 +726,7 @@ def main(args: Args) -> None:
     )
 
     training_metrics = rate_predictor.train(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        {k: jnp.asarray(v) for k, v in stacked_data.items() if v is not None},
         rate_predictor_keys[1],
         bootstrap=args.bootstrap,
     )
@@ -765,14 +765,16 @@ def main(args: Args) -> None:
 
       rate_predictor.distill(augmented_data, config=distillation_defaults)
 
-    avg_context = np.median(stacked_data['context'], axis=0)
+    avg_context = None
+    if stacked_data['context'] is not None:
+      avg_context = np.median(stacked_data['context'], axis=0)
     rate_predictor.save(args.workdir.as_posix(), fixed_context=avg_context)
     rate_prediction_function = rate_predictor.apply_model
 
   # Using a scikit-learn classifier
   else:
     train_datasets, test_datasets = learn_rates.create_dataset_splits(
-        {k: jnp.asarray(v) for k, v in stacked_data.items()},
+        {k: jnp.asarray(v) for k, v in stacked_data.items() if v is not None},
         num_splits=args.num_models,
         key=rng_key,
         bootstrap=args.bootstrap,
diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 3130f79..8f6adcc 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -806,13 +806,11 @@ class LearnedTransitionRatePredictor:
         self.config.learning_rate, weight_decay=self.config.weight_decay
     )
 
-    data_mean = np.concatenate(
-        [train_data['context'].mean(0), train_data['position'].mean(0)], 0
-    )
-
-    data_scale = np.concatenate(
-        [train_data['context'].std(0), train_data['position'].std(0)], 0
-    )
+    inputs = [train_data['position']]
+    if train_data.get('context') is not None:  # The context is optional.
+      inputs.insert(0, train_data['context'])
+    data_mean = np.concatenate([x.mean(0) for x in inputs], 0)
+    data_scale = np.concatenate([x.std(0) for x in inputs], 0)
 
     distillation_params, distillation_state, self.rng, distill_metrics = (
         distill_multiple_models_to_single(
-- 
2.43.0


From b4025419dd107823ab20bb12fb675224cd3be37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 50/65] fix: draw rates with a fixed context for any number of
 points

---
 putting_dune/rate_learning/learn_rates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/rate_learning/learn_rates.py b/putting_dune/rate_learning/learn_rates.py
index 8f6adcc..31f7340 100644
--- a/putting_dune/rate_learning/learn_rates.py
+++ b/putting_dune/rate_learning/learn_rates.py
@@ -1025,7 +1025,7 @@ def visualize_rates(
   coords = np.stack([xs, ys], -1)
   context = coords.reshape(-1, *coords.shape[2:])
   if fixed_context is not None:
-    fixed_context = np.repeat(fixed_context[None], num_points, 0)
+    fixed_context = np.repeat(fixed_context[None], context.shape[0], 0)
     context = np.concatenate([fixed_context, context], axis=-1)
 
   pred_rates = predict_rates(context)
-- 
2.43.0


From 5fd9ef0f1827a686a6743ee688b8b9a368eb2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 51/65] fix: replace cached model weights without leaving a
 part of the old ones

---
 putting_dune/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/putting_dune/io.py b/putting_dune/io.py
index 58ed39e..5c9585f 100644
--- a/putting_dune/io.py
+++ b/putting_dune/io.py
@@ -15,7 +15,6 @@
 """IO Utilities."""
 import contextlib
 import os
-import shutil
 import tempfile
 import typing
 from typing import IO, Iterable, Iterator, Literal, Type, TypeVar
@@ -97,6 +96,10 @@ def extract_model(zip_file: PathLike | IO[bytes], model_path: PathLike) -> None:
   with tempfile.TemporaryDirectory(dir=model_path.parent) as tmpdir:
     with zipfile.ZipFile(zip_file) as model_zip:
       model_zip.extractall(tmpdir)
+    extracted = os.path.join(tmpdir, model_path.name)
     if model_path.exists():
-      shutil.rmtree(model_path)
-    os.rename(os.path.join(tmpdir, model_path.name), model_path)
+      # Moved before it is removed, so that no part of it can remain in place.
+      replaced = os.path.join(tempfile.mkdtemp(dir=tmpdir), model_path.name)
+      os.stat(extracted)  # Keep the existing model if there is no new one.
+      os.rename(model_path, replaced)
+    os.rename(extracted, model_path)
-- 
2.43.0


From b36a38664071e00d59b99ebf472854c2c1a90717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 52/65] fix: training scripts asked the metric writer for
 unknown options

---
 putting_dune/atom_detection/train.py  | 5 +----
 putting_dune/graph_alignment/train.py | 5 +----
 putting_dune/image_alignment/train.py | 2 --
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index d6c584e..91fe08c 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -154,10 +154,7 @@ def prefix_dict_keys(mapping: Dict[str, Any], prefix: str) -> Dict[str, Any]:
 
 def train(config: Config) -> TrainState:
   """Train function."""
-  writer = metric_writers.create_default_writer(
-      write_to_xm_measurements=False,
-      write_to_datatable=True,
-  )
+  writer = metric_writers.create_default_writer()
 
   chkpt_manager = checkpoint.CheckpointManager(
       config.workdir,
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 05bf998..5fa635f 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -264,10 +264,7 @@ def prefix_dict_keys(mapping: Dict[str, Any], prefix: str) -> Dict[str, Any]:
 
 def train(config: Config) -> TrainState:
   """Train function."""
-  writer = metric_writers.create_default_writer(
-      write_to_xm_measurements=False,
-      write_to_datatable=True,
-  )
+  writer = metric_writers.create_default_writer()
   seed = np.random.SeedSequence(config.seed)
   seed, dataset_seed = tuple(seed.generate_state(n_words=2))
   key = jax.random.PRNGKey(seed)
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index f06924b..1e9f388 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -270,8 +270,6 @@ def prefix_dict_keys(mapping: Dict[str, Any], prefix: str) -> Dict[str, Any]:
 def train(config: Config) -> TrainState:
   """Train function."""
   writer = metric_writers.create_default_writer(
-      write_to_xm_measurements=False,
-      write_to_datatable=True,
       just_logging=jax.process_index() > 0,
   )
 
-- 
2.43.0


From 296d3b489803b578b158a903cdbde3f72e32cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 53/65] fix: image alignment accuracy compared every pixel with
 one index

---
 putting_dune/image_alignment/train.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 1e9f388..282829f 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -124,7 +124,9 @@ def train_step(
     drift_losses = jnp.square(batch['drift'] - pred_drift).sum(-1)
     drift_loss = jnp.mean(drift_losses)
     final_drift_loss = jnp.mean(drift_losses[..., -1])
-    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+    accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+        batch['mask'], axis=-1
+    )
     accuracy = jnp.mean(accuracies)
     final_accuracy = jnp.mean(accuracies[..., -1])
     drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
@@ -177,7 +179,9 @@ def eval_step(
   drift_loss = jnp.mean(drift_losses)
   final_drift_loss = jnp.mean(drift_losses[..., -1])
 
-  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(batch['mask'])
+  accuracies = jnp.argmax(logits, axis=-1) == jnp.argmax(
+      batch['mask'], axis=-1
+  )
   accuracy = jnp.mean(accuracies)
   final_accuracy = jnp.mean(accuracies[..., -1])
   drift_errors = jnp.linalg.norm(batch['drift'] - pred_drift, axis=-1)
-- 
2.43.0


From 642e9e3aaad7425cd7ebc1bae4bdf3db14ffa57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 54/65] fix: the graph network could not be built, and had no
 edges

---
 putting_dune/graph_alignment/model.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/putting_dune/graph_alignment/model.py b/putting_dune/graph_alignment/model.py
index 85831c7..50f143a 100644
--- a/putting_dune/graph_alignment/model.py
+++ b/putting_dune/graph_alignment/model.py
@@ -222,15 +222,18 @@ def create_sparse_neighbor_list(
     to initialize edges.
   """
   idx_matrix = jnp.zeros((2, capacity), jnp.int32)
-  overflow = jnp.zeros((), dtype=jnp.bool_)
   neighbor_list = partition.NeighborList(  # type: ignore
-      idx_matrix,
-      initial_position,
-      overflow,
-      cell_list_capacity,
-      capacity,
-      partition.Sparse,
-      update_fn,
+      idx=idx_matrix,
+      # Positions that have not moved since the last update do not trigger
+      # another one, so the reference must differ from the actual positions.
+      reference_position=initial_position + 1.0,
+      error=partition.PartitionError(jnp.zeros((), jnp.uint8)),
+      cell_list_capacity=cell_list_capacity,
+      max_occupancy=capacity,
+      format=partition.Sparse,
+      cell_size=None,
+      cell_list_fn=None,
+      update_fn=update_fn,
   )
   return neighbor_list
 
-- 
2.43.0


From 914f47f2b008eba2dd0bc59b5c52e7fc73df6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 55/65] fix: the best checkpoint of graph training was the
 worst

---
 putting_dune/graph_alignment/train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 5fa635f..cf50678 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -273,7 +273,7 @@ def train(config: Config) -> TrainState:
       config.workdir,
       checkpointers=checkpoint.PyTreeCheckpointer(),
       options=checkpoint.CheckpointManagerOptions(
-          best_fn=lambda metrics: metrics['eval/total_loss'],
+          best_fn=lambda metrics: -metrics['eval/total_loss'],
           create=True,
       ),
       metadata=config.to_dict(),
-- 
2.43.0


From e0b04e0edcf4351b848134f41cd6fc006589966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 56/65] fix: training ignored the configured batch size

---
 putting_dune/atom_detection/train.py  | 1 +
 putting_dune/graph_alignment/train.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index 91fe08c..227fcba 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -190,6 +190,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = atom_detection_dataset.AtomDetectionDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = atom_detection_dataset.make_dataset(
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index cf50678..adfcf3c 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -281,6 +281,7 @@ def train(config: Config) -> TrainState:
 
   dataset_config = graph_alignment_dataset.GraphAlignmentDatasetConfig(
       data_dir=config.data_dir.as_posix(),
+      batch_size=config.batch_size,
   )
 
   train_ds, test_ds = graph_alignment_dataset.make_dataset(
-- 
2.43.0


From bcac4f9db1197947ee60f2dc91fa333186b08a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 57/65] fix: graph training could not be resumed

---
 putting_dune/graph_alignment/train.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index adfcf3c..08e3dc8 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -362,7 +362,8 @@ def train(config: Config) -> TrainState:
 
   if latest_step := chkpt_manager.latest_step():
     with progress.timed('restore-checkpoint'):
-      restored = chkpt_manager.restore(latest_step, items=state)
+      clean_state = sanitize_state_keys(state)
+      restored = chkpt_manager.restore(latest_step, items=clean_state)
       restored = sanitize_state_keys(
           restored, (('dummy_slash', '/'), ('dummy_tilde', '~'))
       )
-- 
2.43.0


From 526adf355a5c2e691c8ad4411effa189d5fbe27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 58/65] fix: resumed training repeated its last epoch

---
 putting_dune/atom_detection/train.py  | 2 +-
 putting_dune/graph_alignment/train.py | 2 +-
 putting_dune/image_alignment/train.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/putting_dune/atom_detection/train.py b/putting_dune/atom_detection/train.py
index 227fcba..2a54a24 100644
--- a/putting_dune/atom_detection/train.py
+++ b/putting_dune/atom_detection/train.py
@@ -258,7 +258,7 @@ def train(config: Config) -> TrainState:
 
       with progress.timed('save-checkpoint'):
         chkpt_manager.save(
-            step=epoch,
+            step=epoch + 1,
             items=state,
             metrics=metrics,
         )
diff --git a/putting_dune/graph_alignment/train.py b/putting_dune/graph_alignment/train.py
index 08e3dc8..a2cd37e 100644
--- a/putting_dune/graph_alignment/train.py
+++ b/putting_dune/graph_alignment/train.py
@@ -430,7 +430,7 @@ def train(config: Config) -> TrainState:
       logging.info(metrics)
       with progress.timed('save-checkpoint'):
         chkpt_manager.save(
-            step=epoch,
+            step=epoch + 1,
             items=clean_state,
             metrics=metrics,
         )
diff --git a/putting_dune/image_alignment/train.py b/putting_dune/image_alignment/train.py
index 282829f..d9d2ca1 100644
--- a/putting_dune/image_alignment/train.py
+++ b/putting_dune/image_alignment/train.py
@@ -435,7 +435,7 @@ def train(config: Config) -> TrainState:
 
         with progress.timed('save-checkpoint'):
           chkpt_manager.save(
-              step=epoch,
+              step=epoch + 1,
               items=state,
               metrics=metrics,
           )
-- 
2.43.0


From d63147753d5993cdd2b114b329761d14ac5ca097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 59/65] fix: exported atom detectors could not be loaded

---
 putting_dune/atom_detection/save_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/putting_dune/atom_detection/save_model.py b/putting_dune/atom_detection/save_model.py
index e815f51..3306ad6 100644
--- a/putting_dune/atom_detection/save_model.py
+++ b/putting_dune/atom_detection/save_model.py
@@ -95,7 +95,9 @@ def save(config: Config):
       autograph=False,
       input_signature=[
           tf.TensorSpec(
-              shape=config.input_shape, dtype=np.float32, name='image'
+              shape=config.input_shape,
+              dtype=np.float32,
+              name='preprocessed_inputs_0',  # As the atom detector calls it.
           )
       ],
   )
@@ -113,15 +115,16 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    save_path = epath.Path(tmpdir) / 'packaged'
-    zip_path = epath.Path(tmpdir) / 'packaged.zip'
+    save_path = epath.Path(tmpdir) / 'atom-detection-model'
+    zip_path = epath.Path(tmpdir) / 'atom-detection-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        filename = os.path.join(dirname, filename)
+        zipped.write(filename, os.path.relpath(filename, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From 669c56798671f515c967bbb372e86bd55b31f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:12 +0000
Subject: [PATCH 60/65] fix: exporting an aligner left the process in a removed
 directory

---
 putting_dune/image_alignment/save_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/putting_dune/image_alignment/save_model.py b/putting_dune/image_alignment/save_model.py
index 1d43531..6dc50ed 100644
--- a/putting_dune/image_alignment/save_model.py
+++ b/putting_dune/image_alignment/save_model.py
@@ -136,17 +136,16 @@ def save(config: Config):
   logging.info('Will save model at: %s', copy_target)
 
   with tempfile.TemporaryDirectory() as tmpdir:
-    os.chdir(tmpdir)
     save_path = epath.Path(tmpdir) / 'image-alignment-model'
-    zip_path = epath.Path('image-alignment-model.zip')
+    zip_path = epath.Path(tmpdir) / 'image-alignment-model.zip'
     tf.saved_model.save(tf_module, save_path)
 
     zipped = zipfile.ZipFile(zip_path, 'w')
     for dirname, _, files in os.walk(save_path):
-      dirname = dirname.replace(tmpdir + '/', '')
-      zipped.write(dirname)
+      zipped.write(dirname, os.path.relpath(dirname, tmpdir))
       for filename in files:
-        zipped.write(os.path.join(dirname, filename))
+        filename = os.path.join(dirname, filename)
+        zipped.write(filename, os.path.relpath(filename, tmpdir))
     zipped.close()
     zip_path.copy(dst=copy_target, overwrite=config.overwrite)
 
-- 
2.43.0


From dec9d513627af89428776a105684423608fc9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:18 +0000
Subject: [PATCH 61/65] fix: recordings with a channel axis could not be
 converted

---
 putting_dune/pipeline/upload_microscope_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index e6eccd6..1f59b5a 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -141,7 +141,7 @@ def convert_dataset_to_proto(
   observations = []
   for t in range(length):
     fov = parameters[str(t)]['FOV']
-    rescale_factor = np.array(raw_image_stack.shape[1:])
+    rescale_factor = np.array(raw_image_stack.shape[1:3])
     grid = coordinate_dict[str(t)]['image'][:, :2] / rescale_factor
     atomic_numbers = np.zeros(grid.shape[0], dtype=np.int32) + 6
     if len(coordinate_dict) <= 3:
-- 
2.43.0


From 2ad4a16db94ad5ae8e6ea54a3e71697990a20f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:46 +0000
Subject: [PATCH 62/65] fix: uploaded beam positions were converted to the
 material frame twice

---
 putting_dune/pipeline/upload_microscope_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 1f59b5a..0f63187 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -170,7 +170,6 @@ def convert_dataset_to_proto(
       beam_loc = geometry.PointMicroscopeFrame(
           geometry.Point(beam_loc[0], beam_loc[1])
       )
-      beam_loc = fov.microscope_frame_to_material_frame(beam_loc)
       beam_control = (
           microscope_utils.BeamControl(
               beam_loc,
-- 
2.43.0


From 22fe8cdcd594837e2023e7e2e6178dc596f56181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 63/65] fix: recordings of directories with dots were uploaded
 over each other

---
 putting_dune/pipeline/upload_microscope_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index 0f63187..c0caa72 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -219,7 +219,8 @@ def main(args: Args) -> None:
                 dataset_path.relative_to(args.directory).parts,
             )
         )
-    ).with_suffix('.riegeli')
+        + '.riegeli'
+    )
     pbar.set_postfix_str(filename)
 
     # Load dataset
-- 
2.43.0


From c65030c47c93e58f78cd587099d6f7382f6b3ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 64/65] fix: Equalize images of any range in the image aligner

---
 putting_dune/alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/putting_dune/alignment.py b/putting_dune/alignment.py
index e762f82..3da5800 100644
--- a/putting_dune/alignment.py
+++ b/putting_dune/alignment.py
@@ -521,6 +521,8 @@ class ImageAligner:
     image = image.astype(np.float32)
 
     if self.adaptive_normalization:
+      # The equalization only accepts values between -1 and 1.
+      image = exposure.rescale_intensity(image, out_range=(0.0, 1.0))
       image = exposure.equalize_adapthist(image)
 
     image: tf.Tensor = tf.image.resize(
-- 
2.43.0


From 69de29af694b860d80e53e86ad51064b93042afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:16 +0000
Subject: [PATCH 65/65] fix: Keep uploads of paths that are underscored alike
 apart

---
 putting_dune/pipeline/upload_microscope_data.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/putting_dune/pipeline/upload_microscope_data.py b/putting_dune/pipeline/upload_microscope_data.py
index c0caa72..eb10f20 100644
--- a/putting_dune/pipeline/upload_microscope_data.py
+++ b/putting_dune/pipeline/upload_microscope_data.py
@@ -209,6 +209,7 @@ def main(args: Args) -> None:
     )
     sys.exit(1)
 
+  uploaded = set()
   for dataset_path in (pbar := tqdm.tqdm(paths)):
     # Create a filename by converting each part of the path to be
     # "underscored" and then split path parts with a dash.
@@ -247,6 +248,14 @@ def main(args: Args) -> None:
     # Seek to beginning of the buffer before writting
     fp.seek(0)
 
+    # Different paths may be underscored alike: number those that would replace
+    # the upload of another one.
+    stem, number = filename.stem, 1
+    while filename in uploaded:
+      number += 1
+      filename = pathlib.Path(f'{stem}-{number}.riegeli')
+    uploaded.add(filename)
+
     # Create a blob and upload from our in-memory buffer
     blob = bucket.blob(filename.as_posix())
     blob.upload_from_file(fp)
-- 
2.43.0

