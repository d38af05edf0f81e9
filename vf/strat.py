"""Hypothesis strategies of JSON-able specs."""

import numpy as np
from hypothesis import strategies as st

from vf import core

seeds = st.integers(0, 2**20)


def opt_seed():
  """A seed, or None (meaning: leave unchanged)."""
  return st.one_of(st.none(), seeds, seeds, seeds)


# ---------------------------------------------------------------------------
# Topologies for checks which compile per shape. Sizes are small; the relative
# orientations, numberings and geometries are drawn on top of them.
# ---------------------------------------------------------------------------

TOPO = {
    'line1': {'kind': 'grid', 'n': [1]},
    'line4': {'kind': 'grid', 'n': [4]},
    'line7': {'kind': 'grid', 'n': [7]},
    'line300': {'kind': 'grid', 'n': [300]},
    'quad12x11': {'kind': 'grid', 'n': [12, 11]},
    'quad20x15': {'kind': 'grid', 'n': [20, 15]},
    'hex5x5x6': {'kind': 'grid', 'n': [5, 5, 6]},
    'quad1': {'kind': 'grid', 'n': [1, 1]},
    'quad2x1': {'kind': 'grid', 'n': [2, 1]},
    'quad2x2': {'kind': 'grid', 'n': [2, 2]},
    'quad3x2': {'kind': 'grid', 'n': [3, 2]},
    'quad3x3': {'kind': 'grid', 'n': [3, 3]},
    'quad4x4': {'kind': 'grid', 'n': [4, 4]},
    'quadL': {'kind': 'grid', 'n': [2, 2], 'drop': [3]},
    'quadO': {'kind': 'grid', 'n': [3, 3], 'drop': [4]},
    'tri2': {'kind': 'tri', 'k': 1, 'seed': 1},
    'tri24': {'kind': 'tri', 'k': 2, 'seed': 1},
    'hex1': {'kind': 'grid', 'n': [1, 1, 1]},
    'hex2': {'kind': 'grid', 'n': [2, 1, 1]},
    'hex4': {'kind': 'grid', 'n': [2, 2, 1]},
    'hex8': {'kind': 'grid', 'n': [2, 2, 2]},
    'hexL': {'kind': 'grid', 'n': [2, 2, 2], 'drop': [0, 3, 5]},
    'hex27': {'kind': 'grid', 'n': [3, 3, 3]},
    'tet4': {'kind': 'tet', 'k': 0, 'seed': 0},
    'tet8': {'kind': 'tet', 'k': 1, 'seed': 0},
    'prism': {'kind': 'extrude', 'k': 1, 'seed': 1, 'layers': 1},
}


def topo_ndim(name):
  b = TOPO[name]
  return len(b['n']) if b['kind'] == 'grid' else {
      'tri': 2, 'tet': 3, 'extrude': 3}[b['kind']]


def shard_subset(items, count):
  """A subset of the shapes, different per shard, so that each worker compiles
  few shapes while the shards together cover all of them."""
  items = list(items)
  count = min(count, len(items))
  shard = core.SHARD
  if shard is None:
    return items
  rng = np.random.default_rng(core.derive_seed('subset', shard['key']) % 2**32)
  n = shard['count']
  # round robin over a permutation shared by the shards of the entry
  perm = np.random.default_rng(
      core.derive_seed('perm', shard['group']) % 2**32).permutation(len(items))
  mine = [items[perm[i % len(items)]]
          for i in range(shard['index'] * count, (shard['index'] + 1) * count)]
  del rng, n
  out = []
  for i in mine:
    if i not in out:
      out.append(i)
  return out


def big_or(normal, count, big, big_count=1):
  """The subset of the shapes of this shard; those of the shards which are
  tagged 'big' have high orders or many elements."""
  if core.SHARD is None:
    return list(normal) + list(big)
  if core.SHARD['group'].endswith('/big'):
    return shard_subset(big, big_count)
  return shard_subset(normal, count)


@st.composite
def geom(draw, affine=True, jitter=True):
  g = {'affine': draw(st.one_of(st.none(), seeds, seeds)) if affine else None,
       'jitter': draw(st.one_of(st.none(), seeds, seeds)) if jitter else None}
  if g['jitter'] is not None:
    g['amp'] = draw(st.sampled_from([.05, .2, .3]))
  return g


@st.composite
def groups(draw, max_groups=3, names=('boundary', 'inlet', 'wall', 'g 1', 'x')):
  k = draw(st.integers(0, max_groups))
  out = []
  for i in range(k):
    out.append({
        'name': names[i], 'what': draw(st.sampled_from(
            ['boundary', 'boundary', 'interior', 'any'])),
        'seed': draw(seeds), 'frac': draw(st.sampled_from([1., .5, .3, .1]))})
  return out


@st.composite
def free_base(draw, dims=(1, 2, 3), big=False):
  d = draw(st.sampled_from(list(dims)))
  kinds = {1: ['grid'], 2: ['grid', 'grid', 'tri'],
           3: ['grid', 'grid', 'tet', 'extrude']}[d]
  kind = draw(st.sampled_from(kinds))
  if kind == 'grid':
    hi = {1: 9, 2: 4, 3: 3}[d] + (2 if big and d < 3 else 0)
    n = [draw(st.integers(1, hi)) for _ in range(d)]
    cells = int(np.prod(n))
    drop = draw(st.lists(st.integers(0, cells - 1), max_size=min(
        4, cells // 3), unique=True))
    return {'kind': 'grid', 'n': n, 'drop': sorted(drop)}
  if kind == 'tri':
    return {'kind': 'tri', 'k': draw(st.integers(1, 3)), 'seed': draw(
        st.integers(0, 200))}
  if kind == 'tet':
    return {'kind': 'tet', 'k': draw(st.integers(0, 5)), 'seed': draw(
        st.integers(0, 200))}
  return {'kind': 'extrude', 'k': 1, 'seed': draw(st.integers(0, 200)),
          'layers': draw(st.integers(1, 2))}


@st.composite
def free_mesh(draw, dims=(1, 2, 3), periodic=True, with_groups=True,
              free_links=False, parts=None, jitter=True, big=False):
  """Any mesh; for the checks which need no compilation."""
  base = draw(free_base(dims, big=big))
  spec = {'base': base, 'geom': draw(geom(jitter=jitter)),
          'renum': draw(opt_seed()), 'reorder': draw(opt_seed()),
          'reorient': draw(opt_seed())}
  if periodic and base['kind'] == 'grid':
    d = len(base['n'])
    spec['periodic'] = sorted(draw(st.sets(st.integers(0, d - 1))))
  if free_links and draw(st.booleans()):
    spec['free_links'] = {'count': draw(st.integers(1, 4)), 'seed': draw(seeds)}
  if with_groups:
    spec['groups'] = draw(groups())
  spec['facet_orient'] = draw(opt_seed())
  if parts:
    spec['parts'] = {'k': draw(st.integers(1, parts)), 'seed': draw(seeds),
                     'how': draw(st.sampled_from(
                         ['random', 'blocks', 'even', 'robin', 'slab']))}
  return spec


@st.composite
def topo_mesh(draw, topos, periodic=False, with_groups=False, jitter=True,
              renum=True):
  """A mesh of one of the given topologies."""
  name = draw(st.sampled_from(list(topos)))
  base = TOPO[name]
  spec = {'base': base, 'topo': name, 'geom': draw(geom(jitter=jitter))}
  for k in ('renum', 'reorder', 'reorient'):
    spec[k] = draw(opt_seed()) if renum else None
  if periodic and base['kind'] == 'grid':
    d = len(base['n'])
    spec['periodic'] = sorted(draw(st.sets(st.integers(0, d - 1))))
  if with_groups:
    spec['groups'] = draw(groups())
  spec['facet_orient'] = draw(opt_seed())
  return spec


def mesh_labels(spec):
  b = spec['base']
  d = len(b['n']) if b['kind'] == 'grid' else (2 if b['kind'] == 'tri' else 3)
  out = [f'ndim={d}', f"base={b['kind']}"]
  for k in ('renum', 'reorder', 'reorient'):
    if spec.get(k) is not None:
      out.append(k)
  g = spec.get('geom') or {}
  if g.get('jitter') is not None:
    out.append('deformed')
  if spec.get('periodic'):
    out.append(f"periodic={len(spec['periodic'])}")
  if spec.get('free_links'):
    out.append('free_links')
  if spec.get('groups'):
    out.append('groups')
  return out


def mesh_nontrivial(spec):
  """Relabelled or deformed, with more than one element."""
  b = spec['base']
  many = b['kind'] != 'grid' or int(np.prod(b['n'])) - len(
      b.get('drop', [])) > 1
  g = spec.get('geom') or {}
  return many and (
      any(spec.get(k) is not None for k in ('renum', 'reorder', 'reorient'))
      or g.get('jitter') is not None)
