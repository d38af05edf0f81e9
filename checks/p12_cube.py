"""P12: the cube mesh is the uniform grid it promises, with exact boundaries."""

import itertools

import numpy as np
from hypothesis import strategies as st

from vf import core, gen

RULE = ('A case is non-trivial if it has more than one element per axis, and '
        'periodic axes, partitions or a non-default interval.')
PLAN = [
    {'subs': {'mesh': (900, 4000), 'refined': (100, 500), 'large': (3, 15)},
     'shards': (3, 8),
     'env': {}},
]
ASSUMPTIONS = ['Intervals with a < b; partition arrays whose shape divides the '
               'number of elements per axis.']


@st.composite
def case(draw, small=False):
  d = draw(st.integers(1, 4 if not small else 3))
  hi = {1: 24, 2: 9, 3: 5, 4: 2}[d] if not small else {1: 6, 2: 3, 3: 2}[d]
  n = draw(st.integers(1, hi))
  a = draw(st.one_of(st.just(0.), st.integers(-3, 3).map(float), st.floats(
      -100, 100, allow_nan=False, allow_subnormal=False)))
  b = a + draw(st.one_of(st.just(1.), st.floats(1e-3, 100)))
  per = sorted(draw(st.sets(st.integers(0, d - 1))))
  divs = [k for k in range(1, n + 1) if n % k == 0]
  parts = draw(st.one_of(st.none(), st.lists(
      st.sampled_from(divs), min_size=d, max_size=d)))
  return {'d': d, 'n': n, 'a': a, 'b': b, 'periodic': per, 'parts': parts,
          'shuffle': draw(st.booleans()), 'defaults': draw(st.booleans()),
          'seed': draw(st.integers(0, 2**20))}


@st.composite
def large_case(draw):
  """Node numbers which do not fit into 16 bits, and many partitions."""
  c = draw(case())
  d = c['d']
  n = draw(st.sampled_from({1: [1000, 70000], 2: [60, 260], 3: [12, 40],
                            4: [4, 15]}[d]))
  divs = [k for k in range(1, min(n, 70) + 1) if n % k == 0]
  c.update(n=n, parts=draw(st.one_of(st.none(), st.lists(
      st.sampled_from(divs), min_size=d, max_size=d))))
  return c


def make(case):
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  d, n = case['d'], case['n']
  a, b = case['a'], case['b']
  kw = {}
  if case['defaults']:
    a, b = 0., 1.
  else:
    kw.update(a=a, b=b)
  if case['periodic']:
    per = list(case['periodic'])
    if case['shuffle']:
      per = per[::-1]
    kw['periodic_dims'] = tuple(per)
  ids = None
  if case['parts'] is not None:
    size = int(np.prod(case['parts']))
    ids = np.arange(size)
    if case['shuffle']:
      ids = core.rng_of(case).permutation(size)
    ids = ids.reshape(case['parts'])
    kw['partitions'] = ids.copy()
  p = unit_cube_mesh(n, ndim=d, **kw)
  if ids is not None:
    core.same(kw['partitions'], ids, 'the partition array was modified')
  return p, a, b, ids


def run_mesh(case):
  d, n = case['d'], case['n']
  p, a, b, ids = make(case)
  h = (b - a) / n
  x = np.asarray(p.node_coords)
  core.check(x.shape == ((n + 1) ** d, d), 'shape of the coordinates',
             got=x.shape)
  # integer positions of the nodes
  pos = np.round((x - a) / h).astype(int)
  core.close(x, a + pos * h, 'uniform grid', rtol=0,
             atol=1e-12 * (abs(a) + abs(b)))
  core.same(pos, np.array(list(itertools.product(range(n + 1), repeat=d))),
            'grid positions in lexicographic order')
  # elements
  el = np.asarray(p.elements)
  corners = np.array(list(itertools.product((0, 1), repeat=d)))
  cells = np.array(list(itertools.product(range(n), repeat=d)))
  core.check(el.shape == (n ** d, 2 ** d), 'shape of the elements',
             got=el.shape)
  core.same(pos[el], cells[:, None, :] + corners[None], 'elements')
  # facets on the boundary
  def key(nodes):
    return frozenset(tuple(r) for r in pos[list(nodes)].tolist())

  sides = {}
  for ax in range(d):
    for low in (True, False):
      fs = []
      for c in itertools.product(range(n), repeat=d - 1):
        pts = []
        for o in itertools.product((0, 1), repeat=d - 1):
          r = [i + j for i, j in zip(c, o)]
          r.insert(ax, 0 if low else n)
          pts.append(tuple(r))
        fs.append(frozenset(pts))
      sides[ax, low] = fs
  per = case['periodic']
  want = [f for (ax, _), fs in sides.items() if ax not in per for f in fs]
  groups = dict(p.physical_groups or {})
  core.check(set(groups) == ({'boundary'} if want else set()), 'groups',
             got=sorted(groups))
  tensor = {}
  for f in gen.element_facets(el, d).reshape(-1, 2 ** (d - 1)):
    tensor[tuple(sorted(f.tolist()))] = f
  sym = set(gen.symmetries(d - 1))

  def facet_order(f, what):
    t = tensor.get(tuple(sorted(int(v) for v in f)))
    core.check(t is not None, f'{what}: not a facet', facet=list(f))
    at = {int(v): i for i, v in enumerate(t)}
    core.check(tuple(at[int(v)] for v in f) in sym,
               f'{what}: not in tensor-product order', facet=list(f))

  if want:
    got = [key(f) for f in np.asarray(groups['boundary'])]
    core.check(len(got) == len(set(got)), 'repeated boundary facets')
    core.check(set(got) == set(want), 'boundary facets')
    for f in np.asarray(groups['boundary']):
      facet_order(f, 'boundary')
  # periodic links
  if not per:
    core.check(p.periodic_links is None, 'links without periodic axes')
  else:
    links = np.asarray(p.periodic_links)
    core.check(links.shape == (len(per) * n ** (d - 1), 2, 2 ** (d - 1)),
               'shape of the links', got=links.shape)
    seen = set()
    for lo, hi in links:
      if pos[lo].sum() > pos[hi].sum():
        lo, hi = hi, lo
      diff = pos[hi] - pos[lo]
      ax = int(np.argmax(diff[0]))
      e = np.zeros(d, int)
      e[ax] = n
      core.check(ax in per and np.all(diff == e), 'linked nodes',
                 low=pos[lo].tolist(), high=pos[hi].tolist())
      core.check(np.all(pos[lo][:, ax] == 0), 'low side of a link')
      seen.add((ax, key(lo)))
      facet_order(lo, 'link')
      facet_order(hi, 'link')
    core.check(seen == {(ax, f) for ax in per for f in sides[ax, True]},
               'the linked facets')
  # partitions
  if ids is None:
    core.check(p.partitions is None, 'partitions which were not requested')
  else:
    blocks = [n // k for k in case['parts']]
    want = ids[tuple(cells[:, ax] // blocks[ax] for ax in range(d))]
    core.same(p.partitions, want, 'partitions')


def run_refined(case):
  """The refined and finalized mesh has volume, boundary and identifications."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  d, n = case['d'], case['n']
  p, a, b, _ = make(dict(case, parts=None))
  q = 2 + case['seed'] % 3
  mesh = refine_premesh(p, gen.nodes1d('gll', q + 1)).finalize()
  x = np.asarray(mesh.node_coords)
  k = n * q + 1
  core.check(len(x) == k ** d, 'number of refined nodes', got=len(x),
             expected=k ** d)
  tol = 1e-9 * (abs(a) + abs(b))
  per = case['periodic']
  on = np.zeros(len(x), bool)
  for ax in range(d):
    if ax not in per:
      on |= (np.abs(x[:, ax] - a) < tol) | (np.abs(x[:, ax] - b) < tol)
  # nodes identified with one on the boundary
  wrapped = x.copy()
  for ax in per:
    w = wrapped[:, ax]
    w[np.abs(w - b) < tol] = a
  masks = mesh.physical_masks or {}
  if len(per) < d:
    core.same(np.asarray(masks['boundary']).astype(bool), on, 'boundary mask')
  # every node counts the images
  import jax.numpy as jnp
  mult = np.ones(len(x))
  for ax in per:
    mult *= np.where((np.abs(x[:, ax] - a) < tol) | (np.abs(x[:, ax] - b) < tol),
                     2., 1.)
  core.same(mesh.exchange(jnp.ones(len(x))), mult, 'periodic images')


def labels(case):
  return [f"ndim={case['d']}", f"periodic={len(case['periodic'])}"] + (
      ['partitions'] if case['parts'] else [])


def nontrivial(case):
  return case['n'] > 1 and bool(case['periodic'] or case['parts'] is not None
                                or not case['defaults'])


SUBS = {
    'mesh': core.Sub(case(), run_mesh, labels, nontrivial,
                     'nodes, elements, boundary, links and partitions'),
    'large': core.Sub(large_case(), run_mesh, labels, nontrivial,
                      'as mesh, with many elements'),
    'refined': core.Sub(case(small=True), run_refined, labels, nontrivial,
                        'boundary and identifications after refinement'),
}
