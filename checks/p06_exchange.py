"""P06: exchange sums values over nodes identified by periodicity."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if its links identify at least two different '
        'nodes with each other.')
PLAN = [
    {'subs': {'links': (120, 1500), 'mesh': (60, 700), 'large': (3, 20)},
     'shards': (4, 8), 'env': {}},
]
ASSUMPTIONS = ['Real-valued fields; values are small integers, so that sums '
               'are exact in any order.']


@st.composite
def case(draw):
  """Any link graph between the nodes of a mesh."""
  n = draw(st.sampled_from(strat.shard_subset([4, 6, 9, 14, 25], 3)))
  width = draw(st.sampled_from([1, 2, 4]))
  k = draw(st.integers(0, 6))
  how = draw(st.sampled_from(['random', 'chain', 'cycle', 'star', 'self',
                              'repeat', 'pairs']))
  return {'n': n, 'width': width, 'count': k, 'how': how,
          'seed': draw(strat.seeds), 'groups': draw(st.integers(0, 2)),
          'empty': draw(st.sampled_from([None, 'none', 'zero']))}


@st.composite
def large_case(draw):
  """Many nodes and links, or long chains."""
  c = draw(case())
  c['n'] = draw(st.sampled_from([300, 3000, 70000]))
  c['count'] = draw(st.sampled_from([40, 300, 10000]))
  return c


def links_of(case):
  rng = core.rng_of(case)
  n, w, k = case['n'], case['width'], case['count']
  if k == 0:
    return None if case['empty'] != 'zero' else np.zeros(
        (0, 2, w), np.int32), rng
  how = case['how']
  size = k * w
  if how == 'chain' or how == 'cycle':
    p = rng.permutation(n)
    a = np.resize(p[:-1], size)
    b = np.resize(p[1:], size)
    if how == 'cycle':
      a, b = np.resize(p, size), np.resize(np.roll(p, -1), size)
  elif how == 'star':
    c = rng.integers(0, n)
    a = np.full(size, c)
    b = rng.integers(0, n, size=size)
  elif how == 'self':
    a = rng.integers(0, n, size=size)
    b = np.where(rng.random(size) < .6, a, rng.integers(0, n, size=size))
  elif how == 'repeat':
    a = np.resize(rng.integers(0, n, size=2), size)
    b = np.resize(rng.integers(0, n, size=2), size)
  elif how == 'pairs':
    p = np.resize(rng.permutation(n)[:n // 2 * 2], 2 * size)
    a, b = p[::2], p[1::2]
  else:
    a, b = rng.integers(0, n, size=(2, size))
  flip = rng.random(size) < .5
  a, b = np.where(flip, b, a), np.where(flip, a, b)
  o = rng.permutation(size)
  return np.stack([a[o].reshape(k, w), b[o].reshape(k, w)],
                  axis=1).astype(np.int32), rng


def check_exchange(mesh, n, links, rng, groups, num_pad=0):
  import jax
  import jax.numpy as jnp
  pairs = [] if links is None else np.transpose(
      links, (0, 2, 1)).reshape(-1, 2)
  cls = ref.classes(n, pairs)
  u = rng.integers(-50, 50, size=n).astype(float)
  v = rng.integers(-50, 50, size=n).astype(float)
  ex = lambda z: np.asarray(mesh.exchange(jnp.asarray(z)))
  core.same(ex(u), ref.exchange(u, cls), 'sum over identified nodes')
  # symmetry, and a single node
  core.same(np.sum(ex(u) * v), np.sum(u * ex(v)), 'symmetry')
  e = np.zeros(n)
  i = int(rng.integers(0, n))
  e[i] = 1
  core.same(ex(e), (cls == cls[i]).astype(float), 'image of a unit vector')
  z = rng.normal(size=n)
  core.close(ex(z), ref.exchange(z, cls), 'sum of ordinary values',
             rtol=1e-15 * n, scale=np.abs(z).max())
  # identified nodes hold the same value, even if large values cancel out
  w = rng.normal(size=n)
  w -= (1 - 1e-9 * rng.random()) * (ref.exchange(w, cls) / ref.exchange(
      np.ones(n), cls))
  got = ex(w)
  core.close(got, ref.exchange(w, cls), 'sum of values which cancel out',
             rtol=1e-15 * n, scale=np.abs(w).max())
  core.check(np.all(np.abs(got - got[cls]) <= 1e-10 * np.abs(got[cls])),
             'identified nodes hold different values', difference=np.abs(
                 got - got[cls]).max(), value=np.abs(got).max())
  # applied to each component
  W = rng.integers(-50, 50, size=(n, 2)).astype(float)
  got = jax.vmap(mesh.exchange, in_axes=-1, out_axes=-1)(jnp.asarray(W))
  core.same(got, ref.exchange(W, cls), 'exchange of several components')
  core.check(set(mesh.physical_masks) == set(groups), 'names of the masks')
  for name, f in groups.items():
    inside = np.isin(cls, cls[np.unique(f)])
    got = np.asarray(mesh.physical_masks[name])
    core.check(got.shape == (n,), 'shape of a mask', shape=got.shape)
    core.same(got.astype(bool), inside, f'mask of the group {name}')


def run_links(case):
  links, rng = links_of(case)
  n = case['n']
  from swirl_fem.core.premesh import Premesh
  elements = rng.permutation(np.resize(np.arange(n), 2 * ((n + 1) // 2)))
  groups = {}
  for g in range(case['groups']):
    k = int(rng.integers(1, n + 1))
    groups[f'g{g}'] = rng.permutation(n)[:k].reshape(-1, 1).astype(np.int32)
  p = Premesh.create(
      node_coords=rng.normal(size=(n, 1)),
      elements=elements.reshape(-1, 2).astype(np.int32),
      physical_groups=groups, periodic_links=links)
  mesh = p.finalize()
  check_exchange(mesh, n, links, rng, groups)
  core.same(mesh.node_coords, p.node_coords, 'coordinates of the nodes')
  core.same(mesh.elements, p.elements, 'elements')


@st.composite
def mesh_case(draw):
  topos = strat.shard_subset(
      ['line1', 'line4', 'quad1', 'quad2x1', 'quad3x2', 'quadO', 'tri2', 'hex2',
       'hex8', 'hexL', 'tet4', 'prism'], 3)
  spec = draw(strat.topo_mesh(topos, periodic=True, with_groups=True))
  if draw(st.integers(0, 2)) == 0:
    spec['free_links'] = {'count': draw(st.integers(1, 3)),
                          'seed': draw(strat.seeds)}
  return {'mesh': spec, 'order': draw(st.integers(1, 3)),
          'seed': draw(strat.seeds)}


def run_mesh(case):
  """Refined meshes; the reference works on the exact positions."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  m = gen.build(case['mesh'])
  n1 = case['order'] + 1 if m.ndim < 3 else min(case['order'] + 1, 3)
  p = gen.to_premesh(m)
  r = refine_premesh(p, gen.nodes1d('gll', n1))
  mesh = r.finalize()
  # the reference, independent of how groups and links have been refined
  sig = ref.signatures(m.elements, m.ndim, n1)
  node = {sig[e][k]: int(r.elements[e, k])
          for e in range(len(sig)) for k in range(len(sig[e]))}
  row = lambda f: [node[s] for s in ref.signatures([f], m.ndim - 1, n1)[0]]
  links = None if m.links is None else np.array(
      [[row(a), row(b)] for a, b in m.links])
  groups = {k: np.array([row(f) for f in v]) for k, v in m.groups.items()}
  check_exchange(mesh, r.num_nodes, links, core.rng_of(case), groups)


def links_nontrivial(c):
  links, _ = links_of(c)
  return links is not None and bool(np.any(links[:, 0] != links[:, 1]))


SUBS = {
    'links': core.Sub(case(), run_links,
                      lambda c: [f"how={c['how']}" if c['count'] else 'no links',
                                 f"width={c['width']}"], links_nontrivial,
                      'random link graphs'),
    'large': core.Sub(large_case(), run_links,
                      lambda c: [f"how={c['how']}", f"nodes={c['n']}",
                                 f"links={c['count']}"], links_nontrivial,
                      'link graphs of many nodes and links'),
    'mesh': core.Sub(mesh_case(), run_mesh,
                     lambda c: strat.mesh_labels(c['mesh']),
                     lambda c: bool(c['mesh'].get('periodic')
                                    or c['mesh'].get('free_links')),
                     'refined periodic meshes'),
}
