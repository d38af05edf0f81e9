"""P04: refinement carries groups, periodic links and partitions over."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if the mesh has at least one group or periodic '
        'link and the target has inner nodes.')
PLAN = [
    {'subs': {'data': (1000, 5000), 'discontinuous': (40, 400)},
     'shards': (5, 8), 'env': {}},
    {'subs': {'links': (1000, 5000), 'orders': (25, 200), 'large': (3, 20)},
     'shards': (3, 8), 'env': {}},
]
ASSUMPTIONS = [
    'Groups are not empty, and list facets of elements; linked facets are '
    'facets of elements and are listed in tensor-product order.',
    'A discontinuous refinement carries partitions, but no groups and links '
    '(no node lies on a facet).']


@st.composite
def case(draw, kinds=('nc', 'gll'), links=False):
  spec = draw(strat.free_mesh(dims=(2, 2, 3, 3) if links else (1, 2, 2, 3, 3),
                              free_links=True, parts=5))
  if links:
    spec.setdefault('free_links', {'count': draw(st.integers(1, 4)),
                                   'seed': draw(strat.seeds)})
    spec['facet_orient'] = draw(strat.seeds)
  if draw(st.booleans()):
    spec.pop('parts', None)
  kind = draw(st.sampled_from(list(kinds)))
  return {'mesh': spec, 'target': [kind, draw(st.integers(2, 6))]}


@st.composite
def large_target(draw, kinds, huge):
  """(grid, target) of orders or numbers of nodes which are large."""
  d = draw(st.sampled_from([1, 2, 3]))
  kind = draw(st.sampled_from(kinds))
  if huge:   # indices which do not fit into 16 bits
    grids = {1: [[3], [300]], 2: [[3, 2], [20, 21], [90, 75]],
             3: [[2, 1, 1], [3, 3, 2], [8, 7, 9]]}[d]
    if draw(st.integers(0, 2)) == 0:   # already of edges, without inner nodes
      return {'kind': 'grid', 'n': [180, 150]}, [draw(st.sampled_from(kinds)), 3]
    grid = draw(st.sampled_from(grids))
    n = int(np.ceil((67000 / np.prod(grid)) ** (1 / d))) + 1
    if n > 120:
      grid, n = [1000], 68
  else:
    grid = [draw(st.integers(1, {1: 9, 2: 3, 3: 2}[d])) for _ in range(d)]
    n = draw(st.integers(*{1: (8, 40), 2: (8, 20), 3: (6, 10)}[d]))
  return {'kind': 'grid', 'n': grid}, [kind, n]


@st.composite
def large_case(draw, huge):
  base, target = draw(large_target(['nc', 'gll'], huge))
  d = len(base['n'])
  spec = {'base': base, 'geom': draw(strat.geom()),
          'renum': draw(strat.opt_seed()), 'reorder': draw(strat.opt_seed()),
          'reorient': draw(strat.opt_seed()), 'groups': draw(strat.groups()),
          'facet_orient': draw(strat.opt_seed()),
          'periodic': sorted(draw(st.sets(st.integers(0, d - 1))))}
  if draw(st.booleans()):
    spec['parts'] = {'k': draw(st.integers(1, 400)), 'seed': draw(strat.seeds),
                     'how': 'random'}
  return {'mesh': spec, 'target': target, 'large': True}


def refine(case):
  from swirl_fem.core.mesh_refiner import refine_premesh
  m = gen.build(case['mesh'])
  kind, n = case['target']
  if m.ndim == 3 and not case.get('large'):
    n = min(n, 5 if len(m.elements) < 20 else 4)
  p = gen.to_premesh(m)
  arrays = [p.node_coords, p.elements, p.periodic_links, p.partitions] + [
      p.physical_groups[k] for k in sorted(m.groups)]
  copies = core.snapshot(*arrays)
  r = refine_premesh(p, gen.nodes1d(kind, n))
  core.unchanged(arrays, copies, 'refine_premesh')
  core.check(set(p.physical_groups) == set(m.groups), 'groups of the input')
  # partitions and the order of elements
  if m.parts is None:
    core.check(r.partitions is None, 'not partitioned')
  else:
    core.same(r.partitions, m.parts, 'partitions')
  X = ref.refined_coords(m.coords, m.elements,
                         np.asarray(r.gridpoints_1d.node_values))
  core.close(np.asarray(r.node_coords)[np.asarray(r.elements)].mean(axis=1),
             X.mean(axis=1), 'order of the elements', rtol=0,
             atol=1e-12 * (1 + np.abs(m.coords).max()))
  return m, n, r


def run_data(case):
  m, n, r = refine(case)
  d = m.ndim
  el = np.asarray(r.elements)
  sig = ref.signatures(m.elements, d, n)
  node = {}
  for e in range(len(el)):
    for k in range(el.shape[1]):
      node[sig[e][k]] = int(el[e, k])

  def expected(facets):
    return [[node[s] for s in row]
            for row in ref.signatures(facets, d - 1, n)]

  core.check(set(r.physical_groups) == set(m.groups), 'names of the groups',
             got=sorted(r.physical_groups), expected=sorted(m.groups))
  for name, facets in m.groups.items():
    got = np.asarray(r.physical_groups[name])
    core.check(got.shape == (len(facets), n ** (d - 1)), 'shape of a group',
               name=name, shape=got.shape)
    for i, row in enumerate(expected(facets)):
      core.check(sorted(got[i].tolist()) == sorted(row),
                 'nodes of a facet of a group', name=name, facet=i,
                 got=got[i].tolist(), expected=row)
  if m.links is None:
    core.check(r.periodic_links is None or not len(r.periodic_links),
               'no periodic links')
    return
  got = np.asarray(r.periodic_links)
  core.check(got.shape == (len(m.links), 2, n ** (d - 1)),
             'shape of the periodic links', shape=got.shape)
  for i, (a, b) in enumerate(m.links):
    ea, eb = expected([a, b])
    want = sorted(zip(ea, eb))
    have = sorted(zip(got[i, 0].tolist(), got[i, 1].tolist()))
    core.check(want == have, 'linked nodes of a pair of facets', pair=i,
               got=have, expected=want)


def run_discontinuous(case):
  m, n, r = refine(case)
  core.check(not r.physical_groups, 'groups of a discontinuous mesh')
  core.check(r.periodic_links is None, 'links of a discontinuous mesh')


def labels(case):
  s = case['mesh']
  return strat.mesh_labels(s) + (['parts'] if s.get('parts') else []) + [
      f"points={case['target'][1]}"]


def nontrivial(case):
  s = case['mesh']
  return case['target'][1] > 2 and bool(
      s.get('groups') or s.get('free_links') or s.get('periodic'))


SUBS = {
    'data': core.Sub(case(), run_data, labels, nontrivial,
                     'groups, links and partitions of refined meshes'),
    'links': core.Sub(case(links=True), run_data, labels, nontrivial,
                      'pairs of facets linked in arbitrary orientations'),
    'discontinuous': core.Sub(case(kinds=('gl',)), run_discontinuous, labels,
                              nontrivial, 'discontinuous targets'),
    'orders': core.Sub(large_case(False), run_data, labels, nontrivial,
                       'groups, links and partitions, high orders'),
    'large': core.Sub(large_case(True), run_data, labels, nontrivial,
                      'node numbers which do not fit into 16 bits'),
}
