"""P14: facet enumeration and orientation maps cover every symmetry."""

import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vf import core, gen

RULE = 'A case is non-trivial if the dimension is at least two.'
PLAN = [
    {'subs': {'facets': (150, 150), 'orientations': (150, 150),
              'large': (8, 20)},
     'shards': (2, 4), 'env': {'jax': False}},
]
ASSUMPTIONS = ['Dimensions 1 to 4 (orientations: 0 to 4); elements with at '
               'least two points per axis.']


@st.composite
def case(draw, lo=1):
  d = draw(st.integers(lo, 4))
  return {'d': d, 'n': draw(st.integers(2, {0: 3, 1: 12, 2: 9, 3: 7,
                                            4: 5}[d]))}


@st.composite
def large_case(draw):
  """Orders such that node numbers do not fit into 16 bits."""
  d = draw(st.integers(1, 3))
  return {'d': d, 'n': draw(st.sampled_from(
      {1: [300, 70000], 2: [20, 40, 260], 3: [11, 20, 41]}[d]))}


def run_large(case):
  run_facets(case)
  run_orientations(case)


def run_facets(case):
  from swirl_fem.common import facet_util as fu
  d, n = case['d'], case['n']
  ids = np.arange(n ** d).reshape([n] * d)
  pos = np.array(list(itertools.product(range(n), repeat=d)))
  every = [tuple(f) for f in fu.get_facet_types(d)]
  core.check(len(every) == len(set(every)) == 3 ** d, 'number of facets',
             got=len(every))
  count = np.zeros(n ** d, int)
  names = {'first': 0, 'last': n - 1, 'inner': None}
  by_dim = {}
  for k in range(d + 1):
    fs = [tuple(f) for f in fu.get_facet_types(d, k)]
    core.check(len(fs) == len(set(fs)) == math.comb(d, k) * 2 ** (d - k),
               f'number of facets of dimension {k}', got=len(fs))
    by_dim[k] = fs
  core.check({f for fs in by_dim.values() for f in fs} == set(every),
             'facets by dimension')
  for k, fs in by_dim.items():
    for f in fs:
      where = [names[t.value] for t in f]
      core.check(sum(w is None for w in where) == k, 'dimension of a facet',
                 facet=[t.value for t in f], dim=k)
      full = ids[fu.slice_from_facet_type(f, interior_nodes_only=False)]
      inner = ids[fu.slice_from_facet_type(f, interior_nodes_only=True)]
      on = np.all([(pos[:, i] == w) if w is not None else np.ones(n ** d, bool)
                   for i, w in enumerate(where)], axis=0)
      inside = on & np.all([
          (pos[:, i] > 0) & (pos[:, i] < n - 1) if w is None
          else np.ones(n ** d, bool) for i, w in enumerate(where)], axis=0)
      core.same(np.ravel(full), np.flatnonzero(on), 'nodes of a facet')
      core.same(np.ravel(inner), np.flatnonzero(inside),
                'inner nodes of a facet')
      core.check(np.shape(full) == (n,) * k, 'shape of a facet')
      core.check(np.shape(inner) == (n - 2,) * k, 'shape of an inner facet')
      count[np.ravel(inner)] += 1
  core.check(np.all(count == 1), 'the interiors do not partition the nodes')


def run_orientations(case):
  from swirl_fem.common import facet_util as fu
  d, n = case['d'], case['n']
  m = fu.get_orderings_mapping(d, n)
  keys = {tuple(int(v) for v in k) for k in m}
  core.check(keys == set(gen.symmetries(d)) and len(m) == len(keys),
             'the keys are not the symmetries of the cube', got=len(keys),
             expected=len(gen.symmetries(d)))
  verts = np.array(list(itertools.product((0, n - 1), repeat=d))).reshape(
      2 ** d, d)
  pos = np.array(list(itertools.product(range(n), repeat=d))).reshape(n ** d, d)
  ravel = n ** np.arange(d)[::-1]
  for k, v in m.items():
    v = np.asarray(v)
    core.check(v.shape == (n ** d,) and v.dtype.kind in 'iu',
               'shape of an entry', got=v.shape)
    # multilinear image of the nodes under the map of the vertices
    t = pos / (n - 1)
    want = np.zeros((n ** d, d))
    for c, o in enumerate(itertools.product((0, 1), repeat=d)):
      w = np.prod([t[:, i] if b else 1 - t[:, i] for i, b in enumerate(o)],
                  axis=0) if d else np.ones(1)
      want += np.reshape(w, (-1, 1)) * verts[k[c]]
    core.same(v, np.round(want).astype(int) @ ravel if d else np.zeros(1, int),
              f'high-order nodes of the ordering {k}')


def labels(case):
  return [f"ndim={case['d']}", f"points={case['n']}"]


def nontrivial(case):
  return case['d'] > 1


SUBS = {
    'facets': core.Sub(case(), run_facets, labels, nontrivial,
                       'facets, their slices and interiors'),
    'orientations': core.Sub(case(lo=0), run_orientations, labels, nontrivial,
                             'the permutations of all the symmetries'),
    'large': core.Sub(large_case(), run_large, labels, nontrivial,
                      'facets and permutations of elements of high order'),
}
