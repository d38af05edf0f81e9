"""P05: gather and scatter are exact transposes and ignore missing entries."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if some node is used by more than one entry of '
        'the index array, or if entries are missing.')
PLAN = [
    {'subs': {'arrays': (150, 2000), 'mesh': (60, 600), 'large': (4, 30)},
     'shards': (4, 8), 'env': {}},
]
ASSUMPTIONS = [
    'Values are small integers held in the value type, so that sums are exact; '
    'a float case checks relative rounding.']

SHAPES = [[1, 1], [1, 4], [3, 2], [5, 4], [2, 9], [4, 8], [12, 4], [6, 27]]
NODES = [1, 2, 3, 5, 8, 13, 40]


@st.composite
def case(draw):
  shape = draw(st.sampled_from(strat.shard_subset(SHAPES, 4)))
  n = draw(st.sampled_from(strat.shard_subset(NODES, 4)))
  size = shape[0] * shape[1]
  missing = draw(st.sampled_from(['none', 'few', 'half', 'all', 'rows']))
  return {'shape': shape, 'nodes': n, 'seed': draw(strat.seeds),
          'missing': missing, 'dtype': draw(st.sampled_from(
              ['float64', 'float32', 'int32', 'complex128'])),
          'focus': draw(st.sampled_from(['any', 'last', 'one', 'perm'])),
          'fill': draw(st.sampled_from([None, 0, 7, -3])),
          'flat': draw(st.booleans()) and size > 1}


@st.composite
def large_case(draw):
  c = draw(case())
  c['shape'] = draw(st.sampled_from([[9000, 8], [300, 256], [80000, 1]]))
  c['nodes'] = draw(st.sampled_from([3, 300, 70000]))
  return c


def indices_of(case):
  rng = core.rng_of(case)
  n = case['nodes']
  shape = case['shape']
  size = shape[0] * shape[1]
  if case['focus'] == 'last':     # many uses of the last node
    idx = np.where(rng.random(size) < .6, n - 1, rng.integers(0, n, size=size))
  elif case['focus'] == 'one':
    idx = np.full(size, rng.integers(0, n))
  elif case['focus'] == 'perm':
    idx = np.resize(rng.permutation(n), size)
  else:
    idx = rng.integers(0, n, size=size)
  idx = idx.reshape(shape)
  if case['missing'] == 'few':
    idx = np.where(rng.random(shape) < .2, -1, idx)
  elif case['missing'] == 'half':
    idx = np.where(rng.random(shape) < .5, -1, idx)
  elif case['missing'] == 'all':
    idx = np.full(shape, -1)
  elif case['missing'] == 'rows':
    k = int(rng.integers(0, shape[0] + 1))
    idx[shape[0] - k:] = -1
  if case['flat']:
    idx = idx.reshape(-1)
  return idx.astype(np.int32), rng


def values(rng, shape, dtype):
  # integers which are exact in double precision, but not in single precision
  big = 2 ** 40 if dtype in ('float64', 'complex128', 'int64') else 10
  v = rng.integers(-big, big, size=shape)
  if dtype.startswith('complex'):
    v = v + 1j * rng.integers(-9, 10, size=shape)
  return v.astype(dtype)


def run_arrays(case):
  import jax.numpy as jnp
  from swirl_fem.core import gather_scatter as gs
  idx, rng = indices_of(case)
  n, dt = case['nodes'], case['dtype']
  u, w = values(rng, n, dt), values(rng, idx.shape, dt)
  fill = {} if case['fill'] is None else {'fill_value': case['fill']}
  g = gs.gather(jnp.asarray(u), indices=jnp.asarray(idx), **fill)
  expected = np.empty(idx.shape, dtype=dt)
  for k in np.ndindex(*idx.shape):
    expected[k] = u[idx[k]] if idx[k] != -1 else (
        -1 if case['fill'] is None else case['fill'])
  core.same(g, expected, 'gathered values')
  core.check(np.asarray(g).dtype == np.dtype(dt), 'type of gathered values')
  s = gs.scatter(jnp.asarray(w), indices=jnp.asarray(idx), num_nodes=n)
  expected = np.zeros(n, dtype=dt)
  for k in np.ndindex(*idx.shape):
    if idx[k] != -1:
      expected[idx[k]] += w[k]
  core.same(s, expected, 'scattered values')
  core.check(np.asarray(s).dtype == np.dtype(dt), 'type of scattered values')
  # the transpose relation, with the missing entries read as zero
  g0 = np.asarray(gs.gather(jnp.asarray(u), indices=jnp.asarray(idx),
                            fill_value=0))
  if np.dtype(dt).kind in 'iu':
    core.same(np.sum(g0 * w), np.sum(u * np.asarray(s)), 'transposes')
  else:
    core.close(np.sum(g0 * w), np.sum(u * np.asarray(s)), 'transposes',
               rtol=1e-6 if dt in ('float32', 'complex64') else 1e-13,
               scale=np.sum(np.abs(g0 * w)))


@st.composite
def mesh_case(draw):
  topos = strat.shard_subset(
      ['line4', 'quad2x2', 'quadO', 'tri2', 'hex2', 'hexL', 'tet4', 'quad1'], 3)
  return {'mesh': draw(strat.topo_mesh(topos)),
          'pad': draw(st.integers(0, 2)), 'seed': draw(strat.seeds),
          'order': draw(st.sampled_from([1, 2, 3]))}


def run_mesh(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.core.mesh import Mesh
  from swirl_fem.core.mesh_refiner import refine_premesh
  m = gen.build(case['mesh'])
  order = case['order'] if m.ndim < 3 else min(case['order'], 2)
  p = refine_premesh(gen.to_premesh(m), gen.nodes1d('gll', order + 1))
  elements = np.asarray(p.elements)
  if case['pad']:
    elements = np.concatenate([elements, np.full(
        (case['pad'], elements.shape[1]), -1, dtype=elements.dtype)])
  mesh = Mesh.create(node_coords=p.node_coords, elements=elements,
                     gridpoints_1d=p.gridpoints_1d)
  rng = core.rng_of(case)
  n = mesh.num_nodes
  u = values(rng, n, 'float64')
  w = values(rng, elements.shape, 'float64')
  g = np.asarray(mesh.gather(jnp.asarray(u)))
  core.same(g, np.where(elements == -1, 0., u[elements]), 'gathered values')
  s = np.asarray(mesh.scatter(jnp.asarray(w)))
  keep = elements != -1
  expected = np.zeros(n)
  np.add.at(expected, elements[keep], w[keep])
  core.same(s, expected, 'scattered values')
  core.close(np.sum(g * w * keep), np.sum(u * s), 'transposes', rtol=1e-13,
             scale=np.sum(np.abs(g * w * keep)))
  # also under the transpose of the automatic differentiation
  (t,) = jax.linear_transpose(mesh.gather, jnp.asarray(u))(jnp.asarray(w))
  core.same(t, expected, 'automatic transpose of gather')
  X = np.asarray(mesh.element_coords())
  core.close(X, np.where(keep[..., None], np.asarray(p.node_coords)[elements],
                         0.), 'element coordinates', rtol=0, atol=0)
  counts = np.asarray(mesh.scatter(jnp.ones(elements.shape)))
  core.same(counts, np.bincount(elements[keep], minlength=n).astype(float),
            'number of elements around each node')
  bad = np.zeros(n + 1)
  try:
    mesh.gather(jnp.asarray(bad))
  except ValueError:
    pass
  else:
    raise core.Violation('gather accepts a vector of the wrong length')


SUBS = {
    'arrays': core.Sub(
        case(), run_arrays,
        lambda c: [c['dtype'], f"missing={c['missing']}", f"focus={c['focus']}"],
        lambda c: c['shape'][0] * c['shape'][1] > c['nodes']
        or c['missing'] != 'none' or c['focus'] == 'one',
        'index arrays with repeated and missing entries'),
    'large': core.Sub(
        large_case(), run_arrays,
        lambda c: [c['dtype'], f"nodes={c['nodes']}", f"focus={c['focus']}"],
        lambda c: c['missing'] != 'all', 'index arrays of many entries'),
    'mesh': core.Sub(
        mesh_case(), run_mesh,
        lambda c: strat.mesh_labels(c['mesh']) + [f"pad={c['pad']}"],
        lambda c: strat.mesh_nontrivial(c['mesh']) or c['pad'] > 0,
        'meshes, also with padding elements'),
}
