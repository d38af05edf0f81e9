"""P03: refinement gives a conforming high-order mesh of the same domain."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if the mesh has more than one element and is '
        'renumbered, reordered, reoriented or deformed, and the target has '
        'more than 2 points per axis.')
PLAN = [
    {'subs': {'continuous': (800, 5000), 'discontinuous': (150, 1000)},
     'shards': (6, 8), 'env': {}},
    {'subs': {'faces': (1000, 6000), 'orders': (40, 300), 'large': (4, 25)},
     'shards': (2, 8), 'env': {}},
]
ASSUMPTIONS = [
    'Conforming meshes in which facets are determined by their vertices; '
    'elements with positive Jacobian.',
    'At most about 150 elements, and 7 points per axis (3D: 5); a few cases up '
    'to 120 points per axis, and 80000 nodes.']


@st.composite
def target(draw, kinds, ndim_cap=7):
  kind = draw(st.sampled_from(kinds))
  lo = 1 if kind == 'gl' else 2
  return [kind, draw(st.integers(lo, ndim_cap))]


@st.composite
def case(draw, kinds):
  spec = draw(strat.free_mesh(with_groups=False, periodic=False))
  return {'mesh': spec, 'target': draw(target(kinds))}


@st.composite
def large_target(draw, kinds, huge):
  """(grid, target) of orders or numbers of nodes which are large."""
  d = draw(st.sampled_from([1, 2, 3]))
  kind = draw(st.sampled_from(kinds))
  if huge:   # indices which do not fit into 16 bits
    grids = {1: [[3], [300]], 2: [[3, 2], [20, 21], [90, 75]],
             3: [[2, 1, 1], [3, 3, 2], [8, 7, 9]]}[d]
    if draw(st.integers(0, 2)) == 0:   # already of edges, without inner nodes
      return {'kind': 'grid', 'n': [180, 150]}, [draw(st.sampled_from(kinds)), 3]
    grid = draw(st.sampled_from(grids))
    n = int(np.ceil((67000 / np.prod(grid)) ** (1 / d))) + 1
    if n > 120:
      grid, n = [1000], 68
  else:
    grid = [draw(st.integers(1, {1: 9, 2: 3, 3: 2}[d])) for _ in range(d)]
    n = draw(st.integers(*{1: (8, 40), 2: (8, 20), 3: (6, 10)}[d]))
  return {'kind': 'grid', 'n': grid}, [kind, n]


@st.composite
def large_case(draw, huge):
  base, target = draw(large_target(['nc', 'gll'], huge))
  return {'mesh': {'base': base, 'geom': draw(strat.geom()),
                   'renum': draw(strat.opt_seed()),
                   'reorder': draw(strat.opt_seed()),
                   'reorient': draw(strat.opt_seed())},
          'target': target, 'large': True}


@st.composite
def face_case(draw):
  """Two or more hexahedra sharing faces in arbitrary relative orientations."""
  base = draw(st.sampled_from([
      {'kind': 'grid', 'n': [2, 1, 1]}, {'kind': 'grid', 'n': [1, 2, 1]},
      {'kind': 'grid', 'n': [1, 1, 2]}, {'kind': 'grid', 'n': [2, 2, 1]},
      {'kind': 'tet', 'k': 0, 'seed': 0}, {'kind': 'tet', 'k': 1, 'seed': 0}]))
  spec = {'base': base, 'geom': draw(strat.geom()), 'renum': draw(strat.seeds),
          'reorder': draw(strat.opt_seed()), 'reorient': draw(strat.seeds)}
  return {'mesh': spec, 'target': [draw(st.sampled_from(['nc', 'gll'])),
                                   draw(st.integers(4, 6))]}


def clip(case, m):
  """Bounds the size in 3D."""
  kind, n = case['target']
  if m.ndim == 3 and not case.get('large'):
    n = min(n, 5 if len(m.elements) < 20 else 4)
  return kind, n


def refine(case):
  from swirl_fem.core.mesh_refiner import refine_premesh
  m = gen.build(case['mesh'])
  kind, n = clip(case, m)
  p = gen.to_premesh(m)
  copies = core.snapshot(p.node_coords, p.elements)
  r = refine_premesh(p, gen.nodes1d(kind, n))
  core.unchanged([p.node_coords, p.elements], copies, 'refine_premesh')
  core.check(p.order == 1, 'order of the input')
  core.check(r.order == n - 1, 'order of the refined mesh', order=r.order)
  x = np.asarray(r.gridpoints_1d.node_values)
  core.close(x, ref.nodes(kind, n) if n > 1 else np.zeros(1), 'gridpoints',
             rtol=0, atol=1e-12)
  el = np.asarray(r.elements)
  core.check(el.shape == (len(m.elements), n ** m.ndim), 'shape of elements',
             shape=el.shape)
  core.check(np.issubdtype(el.dtype, np.integer), 'type of elements',
             dtype=el.dtype)
  core.check(el.min() >= 0 and el.max() < r.num_nodes, 'range of the elements')
  # geometry
  X = ref.refined_coords(m.coords, m.elements, x)
  coords = np.asarray(r.node_coords)
  scale = np.abs(m.coords).max() + 1
  core.close(coords[el], X, 'coordinates of the refined nodes', rtol=0,
             atol=1e-12 * scale)
  core.check(len(np.unique(el)) == r.num_nodes,
             'every node belongs to an element', nodes=r.num_nodes,
             used=len(np.unique(el)))
  return m, kind, n, r, el


def run_continuous(case):
  m, kind, n, r, el = refine(case)
  d = m.ndim
  # the original vertices keep their numbers
  N = el.reshape([len(el)] + [n] * d)
  for i in range(d):
    N = np.take(N, [0, -1], axis=1 + i)
  core.same(N.reshape(len(el), -1), m.elements, 'original vertices')
  core.close(np.asarray(r.node_coords)[:len(m.coords)], m.coords,
             'coordinates of the original vertices', rtol=0, atol=1e-13 * (
                 1 + np.abs(m.coords).max()))
  # nodes are shared exactly if they're at the same place of a shared facet
  sig = ref.signatures(m.elements, d, n)
  fwd, bwd = {}, {}
  for e in range(len(el)):
    for k in range(el.shape[1]):
      s, v = sig[e][k], int(el[e, k])
      if fwd.setdefault(s, v) != v:
        raise core.Violation(
            f'elements do not share a node of a common facet: {fwd[s]} and {v}'
            f' (element {e}, position {k})')
      if bwd.setdefault(v, s) != s:
        raise core.Violation(
            f'node {v} is shared by different positions (element {e}, position'
            f' {k})')
  core.check(r.num_nodes == len(fwd), 'number of refined nodes')


def run_discontinuous(case):
  m, kind, n, r, el = refine(case)
  core.check(len(np.unique(el)) == el.size, 'no node is shared')
  core.check(r.num_nodes == el.size, 'number of refined nodes')


def labels(case):
  return strat.mesh_labels(case['mesh']) + [
      f"target={case['target'][0]}", f"points={case['target'][1]}"]


def nontrivial(case):
  return strat.mesh_nontrivial(case['mesh']) and case['target'][1] > 2


SUBS = {
    'continuous': core.Sub(case(['nc', 'gll']), run_continuous, labels,
                           nontrivial, 'positions and sharing of all nodes'),
    'discontinuous': core.Sub(case(['gl']), run_discontinuous, labels,
                              nontrivial, 'positions of all nodes, no sharing'),
    'faces': core.Sub(face_case(), run_continuous, labels, nontrivial,
                      'hexahedra in arbitrary relative orientations'),
    'orders': core.Sub(large_case(False), run_continuous, labels, nontrivial,
                       'positions and sharing of all nodes, high orders'),
    'large': core.Sub(large_case(True), run_continuous, labels, nontrivial,
                      'node numbers which do not fit into 16 bits'),
}
