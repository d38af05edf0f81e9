"""P13: automatic partitioning assigns each element to one valid part."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, strat

RULE = ('A case is non-trivial if there are at least two parts, and more '
        'elements than parts.')
PLAN = [
    {'subs': {'any': (500, 2500), 'quality': (240, 1200), 'large': (2, 15)},
     'shards': (3, 8),
     'env': {}},
]
ASSUMPTIONS = ['Balance (largest part at most 1.3 times the average, plus 2) '
               'and cut (at most 0.85 of that expected of a random assignment) '
               'are demanded for face-connected meshes with at least 10 '
               'elements per part.']


@st.composite
def case(draw, quality=False):
  if quality:
    d = draw(st.sampled_from([1, 2, 2, 3]))
    kind = draw(st.sampled_from(['grid', 'grid', 'tri'])) if d == 2 else 'grid'
    if kind == 'tri':
      base = {'kind': 'tri', 'k': draw(st.integers(2, 6)), 'seed': draw(
          st.integers(0, 200))}
    else:
      lo, hi = {1: (10, 90), 2: (4, 22), 3: (3, 7)}[d]
      base = {'kind': 'grid', 'n': [draw(st.integers(lo, hi))
                                    for _ in range(d)]}
    mesh = {'base': base, 'geom': draw(strat.geom()),
            'renum': draw(strat.opt_seed()), 'reorder': draw(strat.opt_seed()),
            'reorient': draw(strat.opt_seed())}
  else:
    mesh = draw(strat.free_mesh(parts=3))
  return {'mesh': mesh, 'k': draw(st.one_of(
      st.integers(1, 8), st.integers(1, 8), st.integers(1, 8),
      st.integers(9, 400))), 'order': draw(
      st.integers(1, 2)), 'finalize': draw(st.booleans())}


@st.composite
def large_case(draw):
  grid = draw(st.sampled_from([[40000], [190, 180], [60, 45], [33, 32, 34],
                               [70, 6, 8]]))
  return {'mesh': {'base': {'kind': 'grid', 'n': grid},
                   'geom': draw(strat.geom()), 'renum': draw(strat.opt_seed())},
          'k': draw(st.sampled_from([3, 20, 250])), 'order': 1,
          'finalize': False}


def edges_of(elements):
  """Pairs of elements which share a node."""
  owners = {}
  for e, row in enumerate(elements.tolist()):
    for v in set(row):
      owners.setdefault(v, []).append(e)
  out = set()
  for es in owners.values():
    for i, a in enumerate(es):
      for b in es[i + 1:]:
        out.add((a, b))
  return np.array(sorted(out)).reshape(-1, 2)


def bisected(x, k):
  """Parts by recursive bisection of the points along their widest axis."""
  out = np.zeros(len(x), int)

  def split(idx, k, first):
    if k == 1:
      out[idx] = first
      return
    axis = np.argmax(np.ptp(x[idx], axis=0))
    idx = idx[np.argsort(x[idx, axis], kind='stable')]
    m = int(round(len(idx) * (k // 2) / k))
    split(idx[:m], k // 2, first)
    split(idx[m:], k - k // 2, first + k // 2)
  split(np.arange(len(x)), k, 0)
  return out


def run(case, quality):
  from swirl_fem.common import mesh_partitioner
  from swirl_fem.core.mesh_refiner import refine_premesh
  m = gen.build(case['mesh'])
  p = gen.to_premesh(m)
  centers = np.asarray(p.node_coords)[m.elements].mean(axis=1)
  if case['order'] == 2 and len(m.elements) < 30:
    p = refine_premesh(p, gen.nodes1d('gll', 3))
  k = case['k']
  E = len(m.elements)
  if quality:
    k = max(1, min(k, E // 100) if E > 2000 else min(k, 8, E // 10))
  fields = lambda q: [q.node_coords, q.elements, q.periodic_links] + [
      q.physical_groups[g] for g in sorted(q.physical_groups)]
  before = fields(p) + [p.partitions]
  copies = core.snapshot(*before)
  r = mesh_partitioner.partition(p, k)
  core.unchanged(before, copies, 'partition')
  core.check(p.partitions is None if m.parts is None else
             np.array_equal(p.partitions, m.parts), 'the input was modified')
  parts = np.asarray(r.partitions)
  core.check(parts.shape == (E,) and parts.dtype.kind in 'iu',
             'shape or type of the partitions', got=parts.shape)
  core.check(parts.min() >= 0 and parts.max() < k, 'part numbers',
             got=sorted(set(parts.tolist())), k=k)
  core.check(sorted(r.physical_groups) == sorted(p.physical_groups),
             'the groups were changed')
  core.check(r.gridpoints_1d == p.gridpoints_1d or np.array_equal(
      r.gridpoints_1d.node_values, p.gridpoints_1d.node_values),
             'the order was changed')
  for a, b in zip(fields(r), copies):
    if b is None:
      core.check(a is None, 'periodic links appeared')
    else:
      core.same(a, b, 'the rest of the mesh was changed')
  if not quality:
    return
  sizes = np.bincount(parts, minlength=k)
  core.check(sizes.min() > 0, 'an empty part', sizes=sizes.tolist())
  core.check(sizes.max() <= 1.3 * E / k + 2, 'unbalanced parts',
             sizes=sizes.tolist())
  if k > 1:
    edges = edges_of(m.elements)
    cut = np.sum(parts[edges[:, 0]] != parts[edges[:, 1]])
    expected = len(edges) * (1 - np.sum((sizes / E) ** 2))
    core.check(cut <= .85 * expected, 'many connections are cut',
               cut=int(cut), random=float(expected), k=k, elements=E)
    # the partitions of METIS are up to 1.1 times worse
    b = bisected(centers, k)
    straight = np.sum(b[edges[:, 0]] != b[edges[:, 1]])
    core.check(cut <= 1.5 * straight + 3, 'more connections are cut than by '
               'bisections', cut=int(cut), bisections=int(straight), k=k,
               elements=E)


def labels(case):
  return strat.mesh_labels(case['mesh']) + [f"k={case['k']}",
                                            f"order={case['order']}"]


def nontrivial(case):
  m = gen.build(case['mesh'])
  return 2 <= case['k'] < len(m.elements)


SUBS = {
    'any': core.Sub(case(), lambda c: run(c, False), labels, nontrivial,
                    'any mesh and number of parts'),
    'quality': core.Sub(case(quality=True), lambda c: run(c, True), labels,
                        nontrivial, 'balance and cut of larger meshes'),
    'large': core.Sub(large_case(), lambda c: run(c, True), labels, nontrivial,
                      'balance and cut of meshes of many elements'),
}
