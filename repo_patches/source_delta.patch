From 4df6ae9d192bd8a1019ca2fb0f76bf0e4f99f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 01/31] fix: keep the coordinates of periodic nodes when
 finalizing a partitioned premesh

The coordinates were looked up after replacing each node by the
representative of its periodic class, which collapsed the elements
adjacent to the periodic boundary.
---
 swirl_fem/core/premesh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..05c0e9a 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -191,6 +191,10 @@ class Premesh:
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
 
+    # The coordinates are those of the nodes themselves; nodes sharing a periodic
+    # link have the same unique index but different coordinates.
+    node_coords = self.node_coords[node_indices]
+
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
         node_indices, periodic_links=self.periodic_links)
@@ -214,7 +218,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From c7362830f891dfc8c7ea08e6b63ba6a5a8a7336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 02/31] fix: mark the nodes of a physical group which lie on a
 periodic boundary

The masks compared the facets' node indices with the unique indices of
the nodes, so a node which isn't the representative of its periodic class
was left out unless its representative was in the group as well.
---
 swirl_fem/core/premesh.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index 05c0e9a..fe0ac11 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -28,10 +28,19 @@ from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh import Mesh
 
 
-def _mask(facets, node_indices: np.ndarray) -> np.ndarray:
-  """Returns a boolean mask of which `node_indices` are contained in facets."""
+def _mask(
+    facets, node_indices: np.ndarray, unique_indices: np.ndarray
+) -> np.ndarray:
+  """Returns a boolean mask of which `node_indices` are contained in facets.
+
+  Args:
+    facets: The facets, in terms of the global node indices.
+    node_indices: The unique indices of the nodes to compute the mask for.
+    unique_indices: The unique index of each global node index. These differ if
+      there are periodic links.
+  """
   indices = np.array(list(set(facets.flatten().tolist())), dtype=np.int32)
-  return np.isin(node_indices, indices)
+  return np.isin(node_indices, unique_indices[indices])
 
 
 @flax.struct.dataclass
@@ -149,12 +158,17 @@ class Premesh:
       The mesh instance after finalization. If partitioned it's placed on the
       available Jax devices.
     """
+    # The unique index of each node, after accounting for periodic links.
+    unique_indices = gather_scatter.get_unique_node_indices(
+        node_indices=np.arange(self.num_nodes, dtype=np.int32),
+        periodic_links=self.periodic_links)
+
     if not self.is_partitioned():
-      node_indices = gather_scatter.get_unique_node_indices(
-          node_indices=np.arange(self.num_nodes, dtype=np.int32),
-          periodic_links=self.periodic_links)
+      node_indices = unique_indices
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(_mask, node_indices=node_indices,
+                  unique_indices=unique_indices),
+          self.physical_groups)
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -207,7 +221,9 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(_mask, node_indices=node_indices,
+                unique_indices=unique_indices),
+        self.physical_groups)
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0


From 24340ebf18dd4efc1d7fcfebb7776021a4e1c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 03/31] fix: read periodic links of gmsh nodes lying on
 multiple periodic entities

A single mapping was used for all of the periodic entities, so a node on
an edge of a triply periodic cube kept only one of its targets and facets
were linked to sets of nodes which don't form a facet.
---
 swirl_fem/common/mesh_reader.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..aefc898 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -55,22 +55,21 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
     An array with a list of pairs of facets which share a periodic connection.
     See documentation of `Premesh` for the detailed specification.
   """
-  # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  # For each `ndim - 1`-dimensional facet in the mesh, check if it lies on one of
+  # the periodic entities of dimension `ndim - 1`. If so, save it as a periodic
+  # link. A node may lie on multiple periodic entities and have a different
+  # target in each of them; so each of the entities is handled separately.
+  facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
+  facet_elems = mesh.cells_dict[facet_elem_type]
+  periodic_links = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
-
-  # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
-  # facet. If so, save it as a periodic link.
-  facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
-  periodic_links = []
-  for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+    src_tgt_mapping = dict(node_pairs.tolist())
+    for facet_elem in facet_elems:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
   return np.stack(periodic_links, dtype=np.int32)
 
-- 
2.43.0


From b4907649b24936ef45fbbb32d24f45ffdd75c04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:47 +0000
Subject: [PATCH 04/31] fix: order the nodes of gmsh periodic facets
 lexicographically

The facets of 3d meshes kept the Gmsh ordering, which isn't a
tensor-product ordering, so such a mesh could not be refined.
---
 swirl_fem/common/mesh_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index aefc898..4b8afff 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -58,9 +58,11 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
   # For each `ndim - 1`-dimensional facet in the mesh, check if it lies on one of
   # the periodic entities of dimension `ndim - 1`. If so, save it as a periodic
   # link. A node may lie on multiple periodic entities and have a different
-  # target in each of them; so each of the entities is handled separately.
+  # target in each of them; so each of the entities is handled separately. Same
+  # as the elements, the facets' nodes are in lexicographic ordering.
   facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
-  facet_elems = mesh.cells_dict[facet_elem_type]
+  facet_elems = mesh.cells_dict[facet_elem_type][
+      :, _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
   periodic_links = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
-- 
2.43.0


From 72e3cb71c867adeccada0ebcfe5f3aa8f9d140cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 05/31] fix: support data with trailing dimensions in the
 crystal router

The leaves of data may have different shapes as long as the first two
axes agree, but only leaves with exactly two axes were accepted.
---
 swirl_fem/communication/crystal_router.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..4b1b4d5 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -168,9 +168,11 @@ class CrystalData(struct.PyTreeNode):
     Returns:
       The concatenated `CrystalData`, with the same static size as `self`.
     """
+    zero = jnp.zeros_like(self.n)
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice(
+                a, b, start_indices=(self.n,) + (zero,) * (a.ndim - 1))
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From 85661990b340be55b7584398f1572f3958f3834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 06/31] fix: allow static arguments before sharded ones in
 jit_distributed

---
 swirl_fem/communication/jit_distributed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..774de24 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -85,7 +85,11 @@ def jit_distributed(
     sharded = bind(sharded_args, *args, **kwargs)
     if sharded.args or sharded.kwargs:
       g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+      # The sharded arguments are passed as two pytrees, because `shard_map`
+      # doesn't accept keyword arguments. The arguments following a static
+      # argument are bound by name.
+      h = lambda args, kwargs: g(*args, **kwargs)
+      return shmap(jax.vmap(h, in_axes=0))(sharded.args, sharded.kwargs)
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-- 
2.43.0


From 58f5735112a0f4aae589af266eaf115208590237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 07/31] fix: sign of the vorticity

grad(u)[i, j] is the derivative of the jth component along the ith axis,
so the vorticity of a counter-clockwise rotation came out negative.
---
 swirl_fem/navier_stokes/navier_stokes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..cab300c 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -487,7 +487,8 @@ class StokesSEM:
 
     def _vorticity(x: jax.Array):
       grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      # Note that grad(u)[i, j] is ∂uⱼ/∂xᵢ.
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From cd73fe37ec0a7206410c5fb8f71f4f5b2fe6f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 08/31] fix: unpack the auxiliary output of stokes_one_step in
 datagen

---
 swirl_fem/niles/datagen/datagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..9d07d00 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -97,8 +97,8 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
-                             time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+                                time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
 
-- 
2.43.0


From 09a342e16cb34572fd2434e5c22ed9350e3b7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:01 +0000
Subject: [PATCH 09/31] fix: replace jax.tree_map, which no longer exists, in
 niles

---
 swirl_fem/niles/input_pipeline.py | 2 +-
 swirl_fem/niles/train.py          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/input_pipeline.py b/swirl_fem/niles/input_pipeline.py
index 347ae66..276df85 100644
--- a/swirl_fem/niles/input_pipeline.py
+++ b/swirl_fem/niles/input_pipeline.py
@@ -85,7 +85,7 @@ def _read_and_parse(
       windows.append(arr[i:i + window_size:window_step])
     return np.stack(windows)
 
-  return jax.tree_map(_windowed, snapshots)  # pytype: disable=module-attr
+  return jax.tree_util.tree_map(_windowed, snapshots)
 
 
 def create_split(
diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3de5126..3294a66 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -294,7 +294,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
   aux = carry[-1]
   kl_path = aux['kl_path']
   kl_q0 = aux['kl_q0']
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree_util.tree_map(jnp.shape, aux))
   preds = jnp.moveaxis(preds, source=0, destination=1)
   logging.info('preds.shape: %s', preds.shape)
 
@@ -345,7 +345,7 @@ def compute_mse_loss(batch, params, model_apply_fn: Callable[..., Any],
       'z1_stds': jnp.abs(aux['z1_stds']).mean(axis=0),
       'tke_err': tke_error.mean(axis=0),
   }
-  logging.info('aux: %s', jax.tree_map(jnp.shape, aux))  # pytype: disable=module-attr
+  logging.info('aux: %s', jax.tree_util.tree_map(jnp.shape, aux))
   return loss, aux
 
 
@@ -370,7 +370,7 @@ def compute_metrics(loss, aux, train: bool):
     metrics['mse@64'] = aux['mse'][64 - 1]
     metrics['mse@128'] = aux['mse'][128 - 1]
 
-  logging.info('metrics: %s', jax.tree_map(jnp.shape, metrics))  # pytype: disable=module-attr
+  logging.info('metrics: %s', jax.tree_util.tree_map(jnp.shape, metrics))
   metrics = lax.pmean(metrics, axis_name='batch')
   return metrics
 
-- 
2.43.0


From 6e974192739e3443d6f38289bbefb2ec982ca0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 10/31] fix: orientation of refined faces which are shared
 rotated by 90 degrees

The permutation of the inner nodes was the inverse of the one needed; these
differ only if the two elements list a common face rotated by 90 degrees.
---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From df773865fbb9de35591e0d448c88f8681109770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 11/31] fix: refine 3D meshes to a single node per element

---
 swirl_fem/core/mesh_refiner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 3a558ec..935f723 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -110,9 +110,10 @@ class _MeshRefiner:
     # of the refinement order.
     self._dim_to_orderings_mapping: MutableMapping[
         int, MutableMapping[tuple[int, ...], list[int]]] = {}
-    for k in range(1, premesh.ndim):
-      self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
-          ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
+    if self.gridpoints_1d.is_continuous():
+      for k in range(1, premesh.ndim):
+        self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
+            ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
 
   def _num_target_points(self):
     return self.gridpoints_1d.num_points
-- 
2.43.0


From 58e1d242c8572988abc8bf17e9804b92dad544c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 12/31] fix: NaNs from the padding elements of unevenly
 partitioned meshes

The Jacobian of a padding element is zero and has no inverse; gradients of
nodal functions on it are NaN and make integrals and scattered values NaN.
---
 swirl_fem/core/fespace.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..a9a3a9c 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -22,7 +22,9 @@ from jax import lax
 from jax import vmap
 import jax.numpy as jnp
 from jax.custom_batching import custom_vmap
+import numpy as np
 
+from swirl_fem.core.gather_scatter import SENTINEL
 from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Quadrature1D
 from swirl_fem.core.mesh import Mesh
@@ -342,7 +344,15 @@ class FiniteElementSpace:
     # Next, for each element and each quadrature point within an element,
     # compute the `d x d` matrix inverse and its determinant. We vmap first over
     # the elements, and second over the quadrature nodes.
-    invjacs = vmap(vmap(jnp.linalg.inv))(jacs)
+    #
+    # The elements which pad the smaller partitions of a partitioned mesh are
+    # degenerate. Their determinants are zero so they don't contribute to
+    # integrals, but the inverse must be finite as otherwise they contribute
+    # NaNs; any finite values do.
+    is_padding = jnp.any(mesh.elements == SENTINEL, axis=-1)
+    regular_jacs = jnp.where(is_padding[:, np.newaxis, np.newaxis, np.newaxis],
+                             jnp.eye(mesh.ndim, dtype=jacs.dtype), jacs)
+    invjacs = vmap(vmap(jnp.linalg.inv))(regular_jacs)
     jacdets = vmap(vmap(jnp.linalg.det))(jacs)
     return cls(mesh=mesh, quadrature=quadrature, interpolator=interpolator,
                invjacs=invjacs, jacdets=jacdets, quad_coords=quad_coords)
-- 
2.43.0


From 366a14266f6ca7f246607e36fc97dc67cbcf4cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 13/31] fix: let pscan maxima and minima start from the
 infinities

---
 swirl_fem/communication/pscan.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..3e2a1c9 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -32,10 +32,9 @@ def _dtype_range(dtype: jnp.dtype):
 
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
-  else:
-    info = jnp.finfo(dtype)
+    return (info.min, info.max)
 
-  return (info.min, info.max)
+  return (-jnp.inf, jnp.inf)
 
 
 # Mapping to monoid unit (given dtype) of supported ops
-- 
2.43.0


From c221c43c0eaca241b65492e0c858dfba0c9023e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:04 +0000
Subject: [PATCH 14/31] fix: geometry of pressure elements with a single node

---
 swirl_fem/navier_stokes/navier_stokes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index cab300c..cddccc9 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -20,6 +20,7 @@
 """
 
 from collections.abc import Sequence
+import dataclasses
 import enum
 from functools import partial
 from typing import Any
@@ -118,6 +119,13 @@ class StokesPressure:
         num_points=order - 1, node_type=NodeType.GAUSS_LEGENDRE)
     pmesh = refine_premesh(premesh, gridpoints_1d=gridpoints_1d).finalize()
     pspace = FiniteElementSpace.create(mesh=pmesh, quadrature=quadrature)
+    # The pressure nodes don't determine the geometry of the elements if there's
+    # just one node per element (i.e., `order == 2`).
+    geometry = FiniteElementSpace.create(
+        mesh=premesh.finalize(), quadrature=quadrature)
+    pspace = dataclasses.replace(
+        pspace, invjacs=geometry.invjacs, jacdets=geometry.jacdets,
+        quad_coords=geometry.quad_coords)
     return cls(pspace=pspace)
 
   def gather(self, p: jax.Array) -> jax.Array:
-- 
2.43.0


From 5e05055b5b60b684251721e2a43ba3234969942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 15/31] fix: cancellation errors when exchanging shared nodes

---
 swirl_fem/core/gather_scatter.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..d67f41e 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -251,14 +251,14 @@ def exchange(
   if unique_indices is not None:
     updates = updates[unique_indices]
 
-  # Add the updates back to the exchange indices.
-  # This is essentially `u.at[gather_indices].set(updates)`, but since
-  # `gather_indices` could contain sentinel values, use `add` instead; as
-  # otherwise the last index would get overwritten. Also, make sure the
-  # corresponding values being added are zero; for instance, `gather_indices[i]`
-  # has a sentinel if the current partition doesn't have the ith global dof.
-  # The mask zeros out these positions as `updates[i]` is generally not zero.
-  return u.at[gather_indices].add(mask * (updates - initial_values))
+  # Write the updates back to the exchange indices. Note that the values aren't
+  # obtained by adding `updates - initial_values`: the rounding errors would be
+  # relative to the size of the initial values, and differ between the nodes
+  # which are identified with each other. Since `gather_indices` could contain
+  # sentinel values (if the current partition doesn't have the ith global dof),
+  # replace these with an out-of-bounds index such that they are dropped.
+  return u.at[jnp.where(mask, gather_indices, len(u))].set(
+      updates, mode='drop')
 
 
 def _get_periodic_mapping(periodic_links: np.ndarray | None) -> dict[int, int]:
-- 
2.43.0


From d599810e07df44361ce38d8845a51563b2478256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 16/31] fix: skipped steps of long SDE integrations in single
 precision

---
 swirl_fem/sde/sdeint.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 580e84d..36a786e 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -114,17 +114,19 @@ def _sdeint(f, reverse, y0, ts, dw, *args):
   dt = (ts[1] - ts[0]) / len(dw)
 
   def step_fn(state, dw):
-    t, x = state
+    # Note that `t` isn't accumulated: with many steps the rounding errors would
+    # add up to more than `dt`, and the last steps would be skipped below.
+    i, x = state
+    t = ts[0] + i * dt
     drift, diff = f_(x, t, dw)
     _, diffh = f_(x + diff, t + dt, dw)
     x = x + drift * dt + .5 * (diff + diffh)
     updated_state = lax.cond(
-        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (t + dt, x), lambda:
-        (t + dt, state[-1]))
+        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (i + 1, x), lambda:
+        (i + 1, state[-1]))
     return updated_state, None
 
-  t0 = ts[0]  # if not reverse else -ts[1]
-  (_, x1), _ = lax.scan(step_fn, init=(t0, y0), xs=dw, reverse=reverse)
+  (_, x1), _ = lax.scan(step_fn, init=(0, y0), xs=dw, reverse=reverse)
   return x1
 
 
-- 
2.43.0


From 95ff936103d0e37491a0b648ec90b175d1822268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 17/31] fix: gradients of SDE integrals with integer or random
 key arguments

---
 swirl_fem/sde/sdeint.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 36a786e..60242ee 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -159,28 +159,41 @@ def _sdeint_rev(f, reverse, res, y1_bar):
   """
   y1, ts, dw, args = res
 
-  def aug_f(aug_state, t, dw, *args):
-    y, y_bar, *_ = aug_state
-    drift_fn = lambda y, *args: f(y, -t, dw, *args)[0]
-    diff_fn = lambda y, *args: f(y, -t, dw, *args)[1]
-
-    drift_dot, vjpfun = jax.vjp(drift_fn, y, *args)
+  # Only the floating point arguments have a gradient; the others (such as
+  # integers and random keys) are passed through unchanged.
+  leaves, treedef = jax.tree_util.tree_flatten(args)
+  is_diff = [jnp.issubdtype(x.dtype, jnp.inexact) for x in leaves]
+  diff_args = [x for x, d in zip(leaves, is_diff) if d]
+  nondiff_args = [x for x, d in zip(leaves, is_diff) if not d]
+
+  def merge(diff_args, nondiff_args):
+    diff_args, nondiff_args = iter(diff_args), iter(nondiff_args)
+    return jax.tree_util.tree_unflatten(
+        treedef, [next(diff_args if d else nondiff_args) for d in is_diff])
+
+  def aug_f(aug_state, t, dw, diff_args, nondiff_args):
+    y, y_bar, _ = aug_state
+    fn = lambda y, diff_args: f(y, -t, dw, *merge(diff_args, nondiff_args))
+    drift_fn = lambda y, diff_args: fn(y, diff_args)[0]
+    diff_fn = lambda y, diff_args: fn(y, diff_args)[1]
+
+    drift_dot, vjpfun = jax.vjp(drift_fn, y, diff_args)
     drift_bar = (-drift_dot, *vjpfun(y_bar))
 
-    diff_dot, vjpfun = jax.vjp(diff_fn, y, *args)
+    diff_dot, vjpfun = jax.vjp(diff_fn, y, diff_args)
     diff_bar = (-diff_dot, *vjpfun(y_bar))
     return drift_bar, diff_bar
 
   # Run augmented system backwards.
-  aug_init_state = (y1, y1_bar, jax.tree_util.tree_map(jnp.zeros_like, args))
+  aug_init_state = (y1, y1_bar, [jnp.zeros_like(x) for x in diff_args])
   ts = (-ts[1], -ts[0])
 
   unused_y0, y_bar, args_bar = _sdeint_wrapper(
-      aug_f, not reverse, aug_init_state, ts, dw, *args)
+      aug_f, not reverse, aug_init_state, ts, dw, diff_args, nondiff_args)
 
   # Note that the differential wrt `t` or `dw` is not implemented, so return
   # None for the corresponding cotangents.
-  return (y_bar, None, None, *args_bar)
+  return (y_bar, None, None, *merge(args_bar, [None] * len(nondiff_args)))
 
 
 _sdeint.defvjp(_sdeint_fwd, _sdeint_rev)
-- 
2.43.0


From 2de0680c4221efc2687e42215fdbe2befe1becae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:53 +0000
Subject: [PATCH 18/31] fix: reverse-mode derivative of the Stokes step

---
 swirl_fem/navier_stokes/navier_stokes.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index cddccc9..c919ac4 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -71,6 +71,13 @@ def bdfk_coeffs(k: int) -> np.ndarray:
   return coeffs
 
 
+def _pressure_project_out_nullspace_transpose(sem, p):
+  """The transpose of `_pressure_project_out_nullspace`."""
+  q = jnp.ones_like(p)
+  bq = sem.pressure.B(q)
+  return sem.pressure.exchange(p - (jnp.vdot(q, p) / jnp.vdot(q, bq)) * bq)
+
+
 def _pressure_project_out_nullspace(sem, p):
   """Remove the nullspace (all 1s vector) from p."""
   w = sem.pressure.exchange(p)
@@ -424,8 +431,14 @@ class StokesSEM:
         * The pressure field at the next time step.
         * A dictionary of auxiliary information.
     """
+    # The solves below must be symmetric as operators on all right-hand sides,
+    # since reverse-mode differentiation solves for arbitrary ones. So these are
+    # first restricted to those for which the systems have solutions.
+    restrict_u = lambda b: self.velocity.interior_mask * b
+    restrict_p = lambda b: b
     if pressure_preconditioner is None and project_out_nullspace:
       pressure_preconditioner = partial(_pressure_project_out_nullspace, self)
+      restrict_p = partial(_pressure_project_out_nullspace_transpose, self)
 
     # Extrapolate pressure linearly.
     ext_coeffs = extk_coeffs(k=1)
@@ -442,7 +455,8 @@ class StokesSEM:
       f = f - H_(u_boundary)
 
     u_star, info = lax.custom_linear_solve(
-        H_, f, solve=partial(cg, M=self.velocity.exchange, tol=tol, atol=atol),
+        H_, f, solve=lambda H, b: cg(H, restrict_u(b), M=self.velocity.exchange,
+                                     tol=tol, atol=atol),
         symmetric=True, has_aux=True)
     if u_boundary is not None:
       u_star = u_star + u_boundary
@@ -456,7 +470,8 @@ class StokesSEM:
     # Obtain dp by solving DQDᵀ(dp) = -Du*.
     dp, info = lax.custom_linear_solve(
         partial(self.E, dt=dt, time_order=time_order), -self.D(u_star),
-        solve=partial(cg, M=pressure_preconditioner, tol=tol, atol=atol),
+        solve=lambda E, b: cg(E, restrict_p(b), M=pressure_preconditioner,
+                              tol=tol, atol=atol),
         symmetric=True, has_aux=True)
     aux['dp_info'] = info
 
-- 
2.43.0


From bdae94c81ecd75a544b550e7ff2e19307fc35c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:50 +0000
Subject: [PATCH 19/31] fix: declare the initializers and activation of
 MlpBlock as fields

As plain class attributes they were bound as methods of the module, so that
initializing or applying any encoder or decoder block failed.
---
 swirl_fem/niles/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 9214ed2..125939f 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -69,9 +69,9 @@ class MlpBlock(nn.Module):
   mlp_dim: int
   out_dim: int | None = None
   use_bias: bool = True
-  kernel_init = nn.initializers.xavier_uniform()
-  bias_init = nn.initializers.normal(stddev=1e-6)
-  activation_fn = nn.gelu
+  kernel_init: Callable[..., Any] = nn.initializers.xavier_uniform()
+  bias_init: Callable[..., Any] = nn.initializers.normal(stddev=1e-6)
+  activation_fn: Callable[..., Any] = nn.gelu
   precision: jax.lax.Precision | None = None
   dtype: jnp.dtype = jnp.float32
 
-- 
2.43.0


From 5dde578e4befbbaabbf4f6da611dd17dba245125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 20/31] fix: run the data generator, whose step can't be
 compiled with the solver as argument

---
 swirl_fem/niles/datagen/datagen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index 9d07d00..1b141e7 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+from functools import partial
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -132,9 +132,11 @@ def one_cycle(sem: navier_stokes.StokesSEM,
 
   start_time = time.time()
   Cus = tuple(map(sem.C, us))
+  # `sem` isn't a valid argument of jitted functions, so it's closed over.
+  solve_one_step = jax.jit(partial(_solve_one_step, sem))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From 67711ed9dbbba0d96257bdb2c304248e44c3c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 21/31] fix: the closure model accepts the `train` argument it
 is called with

compute_mse_loss passes train=... to the model, and Model.__call__ raised a
TypeError.
---
 swirl_fem/niles/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index 125939f..de0ff22 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -477,8 +477,11 @@ class Model(nn.Module):
                inputs: jnp.ndarray,
                z_rng: jax.Array,
                *,
+               train: bool = False,
                debug: bool = False):
     """Applies Transformer model on the input x."""
+    # The model has no layers which behave differently during training.
+    del train
     dtype = jax.dtypes.canonicalize_dtype(self.dtype)
     # input shape is (batch_size, seq_len, patch_dimension) which is
     # projected to (batch_size, seq_len, width)
-- 
2.43.0


From a7e006bb759a5a1afb0c537f935010eacd99d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 22/31] fix: the ODE mode of the latent state carries and drops
 the KL dimension

With a single sample sample_transformer passed a state without the entry of
the KL term to Dynamics, which asserts it, and kl_path and kl_q0 were unbound.
---
 swirl_fem/niles/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/niles/transformer.py b/swirl_fem/niles/transformer.py
index de0ff22..d96b241 100644
--- a/swirl_fem/niles/transformer.py
+++ b/swirl_fem/niles/transformer.py
@@ -880,8 +880,11 @@ class LatentSDE(nn.Module):
     sde_nn = nn_sdeint(Dynamics)(num_layers=self.model_config.num_sde_layers,
                                  latent_size=self.latent_size)
     context = z0
-    z1 = jax.vmap(sde_nn)(z0, ts, dw, context)
-    return z1
+    # append another dim to z0 for the KL term, which isn't used
+    aug_z0 = jnp.concatenate(
+        [z0, jnp.zeros((batch_size, 1), dtype=jnp.float32)], axis=-1)
+    aug_z1 = jax.vmap(sde_nn)(aug_z0, ts, dw, context)
+    return aug_z1[..., :latent_size]
 
   def sample_sde(self, z0, rng):
     assert z0.ndim == 2, z0.shape
@@ -959,6 +962,9 @@ class LatentSDE(nn.Module):
       else:
         logging.info('using ODE sampler for num samples: %d', self.num_samples)
         z1 = self.sample_transformer(z0)
+        # there's no KL term as the latent state is deterministic
+        kl_path = jnp.zeros((batch_size, self.num_samples), dtype=jnp.float32)
+        kl_q0 = jnp.zeros((batch_size,), dtype=jnp.float32)
 
       assert z1.shape == (
           batch_size, self.num_samples, seq_len * self.latent_size), z1.shape
-- 
2.43.0


From 5ccc73294a4d0996370da21e4e4e41dad90ff5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 23/31] fix: interpolate to the uniform mesh by its
 interpolator in get_tke

Mesh has no method `interpolate`, so every evaluation step raised an
AttributeError.
---
 swirl_fem/niles/train.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index 3294a66..ff1afda 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -39,6 +39,7 @@ import numpy as np
 import optax
 import scipy.spatial
 from swirl_fem.common import premesh_commons
+from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Nodes1D
 from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh_refiner import refine_premesh
@@ -62,9 +63,17 @@ def transfer_perm(source_mesh, target_mesh):
 def get_tke(u, sem, uniform_mesh, first_order_perm, config):
   """Computes the turbulent kinetic energy (TKE) of a velocity field."""
   n = int(math.sqrt(config.num_nodes))
-  u_flat = jax.vmap(partial(uniform_mesh.interpolate,  # pytype: disable=attribute-error
-                            source_mesh=sem.velocity.mesh),
-                    in_axes=-1, out_axes=-1)(u)
+  # Interpolate to the uniform mesh, which has the same elements.
+  interpolator = BarycentricInterpolator(
+      ndim=uniform_mesh.ndim,
+      gridpoints_1d=sem.velocity.mesh.gridpoints_1d,
+      evalpoints_1d=uniform_mesh.gridpoints_1d)
+  u_local = vmap(vmap(interpolator.interpolate), in_axes=-1, out_axes=-1)(
+      sem.velocity.gather(u))
+  counts = uniform_mesh.scatter(
+      jnp.ones(uniform_mesh.elements.shape, dtype=u.dtype))
+  u_flat = vmap(uniform_mesh.scatter, in_axes=-1, out_axes=-1)(
+      u_local) / counts[:, jnp.newaxis]
   u_flat = u_flat[first_order_perm]
   u_flat = u_flat.reshape((n, n, 2))
 
-- 
2.43.0


From 1e39895782cfba0be9935bca9a23bf4652f6c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 24/31] fix: add the fields required by the model to its
 configuration

create_model reads num_layers, num_heads and freeze_encoder, and LatentSDE
num_layers; all were missing from the shipped configuration.
---
 swirl_fem/niles/config/niles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/swirl_fem/niles/config/niles.py b/swirl_fem/niles/config/niles.py
index 77971da..35e9646 100644
--- a/swirl_fem/niles/config/niles.py
+++ b/swirl_fem/niles/config/niles.py
@@ -44,6 +44,10 @@ def get_config():
   config.model.initial_kv_pooling_strides = (1, 4)
   config.model.pooling_strides_q = (1, 4)
   config.model.qkv_tile_reps = (4, 1)
+  # below are unused currently
+  config.model.num_layers = 1
+  config.model.num_heads = 1
+  config.model.freeze_encoder = False
 
   # SDE config. num_samples = 0 disables the processor
   config.model.processor_config = ml_collections.ConfigDict()
@@ -61,6 +65,7 @@ def get_config():
   config.model.processor_config.latent_size = config.model.width * 4
   config.model.processor_config.num_gridpoints = 16
   # below are unused currently in the transformer version
+  config.model.processor_config.num_layers = 4
   config.model.processor_config.num_sde_layers = 4
   config.model.processor_config.context_size = 32
   config.model.processor_config.hidden_size = 32
-- 
2.43.0


From fe93f30984dfa2b55a6495474a33949143236ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 25/31] fix: initialize neural SDE modules with any pytree as
 state

---
 swirl_fem/sde/flax_nn_sde.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index 1e2027a..e85d6f4 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -70,7 +70,8 @@ def core_sdeint(
 
     if is_initializing:
       drift, diffusion = fn(scope, x, ts[0], dw[0], *additional_args)
-      out = jnp.stack([drift + diffusion] * len(ts[1:]))
+      out = jax.tree_util.tree_map(
+          lambda a, b: jnp.stack([a + b] * len(ts[1:])), drift, diffusion)
       return out, repack_fn(scope)
     else:
       y_integrated = sdeint(
-- 
2.43.0


From 3b7d33d886a4601ab229c2f94c26b5b937e40cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 26/31] fix: integrate neural SDE modules without parameters

---
 swirl_fem/sde/flax_nn_sde.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/sde/flax_nn_sde.py b/swirl_fem/sde/flax_nn_sde.py
index e85d6f4..19c9050 100644
--- a/swirl_fem/sde/flax_nn_sde.py
+++ b/swirl_fem/sde/flax_nn_sde.py
@@ -63,9 +63,12 @@ def core_sdeint(
     x, ts, dw, *additional_args = args
     scope = scope_fn(variable_groups, rng_groups)
 
+    # Without mutable parameters there is nothing to initialize (in particular if
+    # the module has no parameters at all).
     def is_scope_initializing(s):
       vs = s.variables()
-      return 'params' not in vs or not vs['params']
+      return s.is_mutable_collection('params') and (
+          'params' not in vs or not vs['params'])
     is_initializing = all(map(is_scope_initializing, scope))
 
     if is_initializing:
-- 
2.43.0


From a2d6f7373e9fd7448730836549608f0658251b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 27/31] fix: gradient and divergence of vector-valued functions
 of the coordinate

---
 swirl_fem/core/fespace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index a9a3a9c..b974f58 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -239,8 +239,10 @@ def grad(f: QFunction) -> QFunction:
   elif isinstance(f, VectorNodalQFunction):
     return VectorNodalQFunctionGrad(fespace=f.fespace, u_local=f.u_local)
   # We expect that it's a jax function of the coordinate (x), in which case
-  # fall back to the symbolic implementation of gradient.
-  return jax.grad(f)
+  # fall back to the symbolic implementation of gradient. As above, entry (i, j)
+  # of the gradient of a vector-valued function is the derivative of component j
+  # along axis i.
+  return lambda x: jnp.moveaxis(jax.jacrev(f)(x), -1, 0)
 
 
 def div(f: QFunction) -> QFunction:
-- 
2.43.0


From 5e28735f2c41332e47fd067791c178f58b8da136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:00 +0000
Subject: [PATCH 28/31] fix: keep the number of overintegration nodes of the
 velocity space

---
 swirl_fem/navier_stokes/navier_stokes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index c919ac4..99c69b8 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -206,7 +206,8 @@ class StokesVelocity:
 
     return cls(vspace=vspace, overint_space=overint_space,
                diag_qqt=diag_qqt,
-               interior_mask=interior_mask)
+               interior_mask=interior_mask,
+               num_convection_overint_nodes=num_convection_overint_nodes)
 
   @property
   def local_shape(self) -> tuple[int, ...]:
-- 
2.43.0


From 5e957c55c5aab1b3a75ec111802809916708d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 29/31] fix: keep the items which are routed on a single device

With one device there are no stages in which the maximum length is found, so
the returned arrays were empty.
---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 4b1b4d5..d3a74bb 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -369,7 +369,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # the maximum dynamic length if there are no stages (with a single device)
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From 7b334684a74313be0727527d0043f40927a24667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 30/31] fix: evaluate on the whole validation split if no
 number of steps is given

The number of examples was that of the snapshots instead of the windows, and
was divided by the batch size twice.
---
 swirl_fem/niles/train.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/niles/train.py b/swirl_fem/niles/train.py
index ff1afda..54d5c44 100644
--- a/swirl_fem/niles/train.py
+++ b/swirl_fem/niles/train.py
@@ -580,9 +580,9 @@ def train_and_evaluate(config: ml_collections.FrozenConfigDict,
     num_steps = config.num_train_steps
 
   if config.steps_per_eval == -1:
-    num_validation_examples = (
-        input_pipeline.NUM_SPLIT_EXAMPLES[tfds.Split.VALIDATION]  # pyrefly: ignore[missing-attribute]
-        // config.batch_size
+    num_validation_examples = input_pipeline.get_num_examples(
+        tfds.Split.VALIDATION, window_size=config.eval_window_size,  # pyrefly: ignore[missing-attribute]
+        window_stride=config.eval_window_stride, debug=config.debug
     )
     steps_per_eval = num_validation_examples // config.batch_size
   else:
-- 
2.43.0


From 38f8dce0c3958bcd46b0131f29119493a5b3bc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:22 +0000
Subject: [PATCH 31/31] fix: name the metric of the first steps in the config
 as training reports it

---
 swirl_fem/niles/config/niles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/niles/config/niles.py b/swirl_fem/niles/config/niles.py
index 35e9646..71bec9c 100644
--- a/swirl_fem/niles/config/niles.py
+++ b/swirl_fem/niles/config/niles.py
@@ -129,7 +129,7 @@ def metrics() -> list[str]:
       'train_z1_stds',
       'eval_loss',
       'eval_mse',
-      'eval_mse@1t08',
+      'eval_mse@1to8',
       'eval_mse@8',
       'eval_mse@16',
       'eval_mse@32',
-- 
2.43.0

