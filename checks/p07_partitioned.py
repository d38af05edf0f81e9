"""P07: a partitioned mesh computes the same as the unpartitioned mesh."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if there are at least two partitions of '
        'different sizes, or periodic links across partitions.')
PLAN = [
    {'subs': {'structure': (60, 600)}, 'shards': (4, 8),
     'env': {'devices': 8}},
    {'subs': {'large': (5, 15)}, 'shards': (1, 4), 'env': {'devices': 8},
     'tag': 'large'},
    {'subs': {'operators': (12, 120)}, 'shards': (6, 12),
     'env': {'devices': 8}, 'tag': 'ops'},
]
ASSUMPTIONS = [
    'Nodes linked with each other lie in different partitions (others are '
    'rejected by the code as not implemented).',
    'Up to 8 partitions, each on its own (host) device.']


@st.composite
def case(draw, topos):
  topo = draw(st.sampled_from(topos))
  spec = {'base': strat.TOPO[topo], 'topo': topo, 'geom': draw(strat.geom()),
          'renum': draw(strat.opt_seed()), 'reorder': draw(strat.opt_seed()),
          'reorient': draw(strat.opt_seed()),
          'facet_orient': draw(strat.opt_seed()), 'groups': draw(strat.groups())}
  if spec['base']['kind'] == 'grid' and draw(st.booleans()):
    d = len(spec['base']['n'])
    # identified nodes have to lie in different partitions: cut along the axis
    ax = draw(st.sampled_from([i for i in range(d)
                               if spec['base']['n'][i] > 1] or [0]))
    spec['periodic'] = [ax]
  spec['parts'] = {'k': draw(st.integers(1, 8)), 'seed': draw(strat.seeds),
                   'how': draw(st.sampled_from(
                       ['random', 'blocks', 'even', 'robin', 'slab']))}
  return {'mesh': spec, 'points': draw(st.integers(2, 3)),
          'kind': draw(st.sampled_from(['gll', 'nc'])),
          'holes': draw(st.sampled_from([False, False, False, True])),
          'slabs': draw(st.sampled_from([True, True, True, False])),
          'seed': draw(strat.seeds)}


def setup(case):
  """Returns the mesh data, refined premesh and everything by global nodes."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  spec = case['mesh']
  m = gen.build(spec)
  if spec.get('periodic') and case.get('slabs', True):
    # Slabs along the periodic axis, assigned to parts in order.
    plain = gen.build({**spec, 'geom': None, 'parts': None})
    cent = plain.coords[plain.elements].mean(axis=1)[:, spec['periodic'][0]]
    n = spec['base']['n'][spec['periodic'][0]]
    cell = np.clip(np.floor(cent + 1e-9).astype(int), 0, n - 1)
    rng = np.random.default_rng(spec['parts']['seed'])
    slab = rng.permutation(n)[cell]
    k = spec['parts']['k']
    extra = np.zeros(len(slab), int)
    if k > n:       # some slabs are cut across as well
      extra = rng.integers(0, max(1, k // n), size=len(slab))
    lab = slab * (int(extra.max()) + 1) + extra
    m.parts = np.unique(lab, return_inverse=True)[1].reshape(-1)
  if case['holes'] and m.parts.max() < 7:
    hole = int(core.rng_of(case).integers(0, m.parts.max() + 1))
    m.parts = m.parts + (m.parts >= hole)   # a part without elements
  p = gen.to_premesh(m)
  r = refine_premesh(p, gen.nodes1d(case['kind'], case['points']))
  el = np.asarray(r.elements)
  N = r.num_nodes
  pairs = [] if r.periodic_links is None else np.transpose(
      r.periodic_links, (0, 2, 1)).reshape(-1, 2)
  cls = ref.classes(N, pairs)
  # identified nodes in a partition aren't supported: they have to be rejected,
  # or treated properly
  for q in range(m.parts.max() + 1):
    nodes = np.unique(el[m.parts == q])
    if len(np.unique(cls[nodes])) != len(nodes):
      try:
        r.finalize(axis_name='i')
      except Exception:
        # rejected
        r = r.replace(periodic_links=None)
        cls = np.arange(N)
      break
  return m, r, el, cls


def local_to_global(mesh, m, r, el):
  """Finds the global element and node of each local one by coordinates."""
  k = int(m.parts.max()) + 1
  le = np.asarray(mesh.elements)
  xc = np.asarray(mesh.node_coords)
  core.check(le.shape[0] == k and le.ndim == 3 and le.shape[2] == el.shape[1],
             'shape of the partitioned elements', shape=le.shape)
  X = np.asarray(r.node_coords)[el]
  scale = np.abs(X).max() + 1
  glob = -np.ones(xc.shape[:2], dtype=int)
  elem_of = []
  for q in range(k):
    real = np.flatnonzero(~np.any(le[q] == -1, axis=1))
    core.check(np.all(le[q][np.any(le[q] == -1, axis=1)] == -1),
               'padding elements are missing entirely')
    mine = np.flatnonzero(m.parts == q)
    core.check(len(real) == len(mine), 'number of elements of a partition',
               partition=q, got=len(real), expected=len(mine))
    left = set(mine.tolist())
    rows = {}
    for j in real:
      x = xc[q][le[q][j]]
      best = min(left, key=lambda e: np.abs(X[e] - x).max())
      core.check(np.abs(X[best] - x).max() <= 1e-12 * scale,
                 'coordinates of the elements of a partition', partition=q)
      left.remove(best)
      rows[int(j)] = best
      for a, b in zip(le[q][j], el[best]):
        core.check(glob[q, a] in (-1, b), 'a local node is two global nodes')
        glob[q, a] = b
    elem_of.append(rows)
  for q in range(k):
    g = glob[q][glob[q] >= 0]
    core.check(len(set(g.tolist())) == len(g),
               'a global node is two nodes of a partition', partition=q)
  return le, glob, elem_of


def run_structure(case):
  import jax
  import jax.numpy as jnp
  m, r, el, cls = setup(case)
  copies = core.snapshot(r.elements, r.node_coords, r.partitions,
                         r.periodic_links)
  mesh = r.finalize(axis_name='i')
  core.unchanged([r.elements, r.node_coords, r.partitions, r.periodic_links],
                 copies, 'finalize')
  le, glob, _ = local_to_global(mesh, m, r, el)
  real = glob >= 0
  core.check(set(mesh.physical_masks) == set(m.groups), 'names of the groups')
  for name, f in r.physical_groups.items():
    inside = np.isin(cls, cls[np.unique(f)])
    got = np.asarray(mesh.physical_masks[name]).astype(bool)
    core.check(got.shape == glob.shape, 'shape of a mask', shape=got.shape)
    core.same(got[real], inside[glob[real]], f'mask of the group {name}')
    core.check(not np.any(got[~real]), 'padding nodes are in no group')
  # exchange: the sum over all the copies of a degree of freedom
  rng = core.rng_of(case)
  u = rng.integers(-2 ** 40, 2 ** 40, size=glob.shape).astype(float)
  # values which cancel out (up to 1e-9) when they are summed
  w = rng.normal(size=glob.shape)
  total, count = np.zeros(len(cls)), np.zeros(len(cls))
  np.add.at(total, cls[glob[real]], w[real])
  np.add.at(count, cls[glob[real]], 1)
  w[real] -= ((1 - 1e-9) * total / np.maximum(count, 1))[cls[glob[real]]]
  got, got_w = map(np.asarray, jax.pmap(
      lambda a, v, w: (a.exchange(v), a.exchange(w)), axis_name='i')(
          mesh, u, w))
  total = np.zeros(len(cls))
  np.add.at(total, cls[glob[real]], u[real])
  core.same(got[real], total[cls[glob[real]]], 'exchange across partitions')
  first = np.zeros(len(cls))
  first[cls[glob[real]]] = got_w[real]
  core.check(np.all(np.abs(got_w[real] - first[cls[glob[real]]])
                    <= 1e-10 * np.abs(got_w[real])),
             'copies of a node hold different values after the exchange')
  # the unpartitioned mesh, given a field on its nodes
  v = rng.integers(-2 ** 40, 2 ** 40, size=el.shape).astype(float)
  glob_sum = ref.exchange(ref.scatter(v, el, len(cls)), cls)
  vl = np.zeros(le.shape)
  for q, rows in enumerate(local_to_global(mesh, m, r, el)[2]):
    for j, e in rows.items():
      vl[q, j] = v[e]
    pad = np.any(le[q] == -1, axis=1)
    vl[q, pad] = 17.       # must not have any influence
  got = np.asarray(jax.pmap(lambda a, w: a.exchange(a.scatter(w)),
                            axis_name='i')(mesh, vl))
  core.same(got[real], glob_sum[glob[real]], 'assembly across partitions')
  plain = r.replace(partitions=None).finalize()
  core.same(plain.exchange(jnp.asarray(ref.scatter(v, el, len(cls)))), glob_sum,
            'assembly on the unpartitioned mesh')


def run_operators(case):
  import jax
  import jax.numpy as jnp
  from jax import lax
  from swirl_fem.core.fespace import FiniteElementSpace, div, grad
  m, r, el, cls = setup(case)
  d = m.ndim
  q1 = gen.quad1d('gl', case['points'])
  mesh = r.finalize(axis_name='i')
  le, glob, _ = local_to_global(mesh, m, r, el)
  real = glob >= 0

  def fn(mesh, u, w):
    V = FiniteElementSpace.create(mesh=mesh, quadrature=q1)
    vgather = jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)
    vscatter = jax.vmap(mesh.scatter, in_axes=-1, out_axes=-1)
    f = V.scalar_function(mesh.gather(u))
    v = V.scalar_function(None)
    wv = V.vector_function(vgather(w))
    wt = V.vector_function(None)
    out = {}
    out['volume'] = lax.psum(V.integrate(lambda x: jnp.ones(())), 'i')
    out['coord'] = lax.psum(
        V.integrate(lambda x: 1. + jnp.sum(x * x) + x[0]), 'i')
    out['square'] = lax.psum(V.integrate(lambda x: f(x) * f(x)), 'i')
    out['energy'] = lax.psum(
        V.integrate(lambda x: jnp.vdot(grad(f)(x), grad(f)(x))), 'i')
    out['div'] = lax.psum(V.integrate(lambda x: div(wv)(x) * f(x)), 'i')
    mass = lambda a, b: (lambda x: a(x) * b(x))
    stiff = lambda a, b: (lambda x: jnp.vdot(grad(a)(x), grad(b)(x)))
    vec = lambda a, b: (lambda x: jnp.einsum('ij,ij->', grad(a)(x), grad(b)(x)))
    out['mass'] = mesh.exchange(mesh.scatter(V.local_covector(mass, (f, v))))
    out['stiff'] = mesh.exchange(mesh.scatter(V.local_covector(stiff, (f, v))))
    out['vec'] = jax.vmap(mesh.exchange, in_axes=-1, out_axes=-1)(
        vscatter(V.local_covector(vec, (wv, wt))))
    return out

  rng = core.rng_of(case)
  U = rng.normal(size=len(cls))
  W = rng.normal(size=(len(cls), d))
  g = np.where(real, glob, 0)
  # the values of padding nodes must not have any influence
  u = np.where(real, U[g], 1e3)
  w = np.where(real[..., None], W[g], -1e3)
  out = jax.tree_util.tree_map(
      np.asarray, jax.pmap(fn, axis_name='i')(mesh, u, w))

  S = ref.Space(np.asarray(r.node_coords)[el],
                ref.nodes(case['kind'], case['points']),
                ref.nodes('gl', case['points']),
                ref.weights('gl', case['points']))
  f, gf = S.value(U[el]), S.grad(U[el])
  gw = S.grad(W[el])
  k = int(m.parts.max()) + 1
  expect = {
      'volume': S.integrate(np.ones_like(f)),
      'coord': S.integrate(1 + (S.coords ** 2).sum(-1) + S.coords[..., 0]),
      'square': S.integrate(f * f), 'energy': S.integrate((gf ** 2).sum(-1)),
      'div': S.integrate(np.einsum('eqii->eq', gw) * f)}
  scales = {'volume': expect['volume'],
            'coord': S.integrate(1 + (S.coords ** 2).sum(-1)
                                 + np.abs(S.coords[..., 0])),
            'square': expect['square'], 'energy': expect['energy'],
            'div': S.integrate(np.abs(np.einsum('eqii->eq', gw) * f))}
  for name, e in expect.items():
    core.close(out[name], np.full(k, e), f'integral over all partitions: {name}',
               rtol=1e-10, scale=scales[name])
  # covectors from the reference, by basis functions
  I = S.value(np.broadcast_to(np.eye(el.shape[1]),
                              (len(el),) + (el.shape[1],) * 2))
  G = S.grad(np.broadcast_to(np.eye(el.shape[1]),
                             (len(el),) + (el.shape[1],) * 2))
  wd = S.det * S.w
  cov = {'mass': np.einsum('eq,eq,eqn->en', wd, f, I),
         'stiff': np.einsum('eq,eqi,eqin->en', wd, gf, G),
         'vec': np.einsum('eq,eqij,eqin->enj', wd, gw, G)}
  for name, c in cov.items():
    full = ref.exchange(ref.scatter(c, el, len(cls)), cls)
    core.close(out[name][real], full[glob[real]],
               f'assembled functional: {name}', rtol=1e-9,
               scale=np.abs(c).max() * 4 + np.abs(full).max())


@st.composite
def large_case(draw):
  """Many nodes (indices which do not fit into 16 bits)."""
  c = draw(case(['quad4x4', 'quad3x2', 'hex8']))
  c['points'] = {'quad4x4': 50, 'quad3x2': 85, 'hex8': 19}[
      c['mesh']['topo']]
  c['kind'] = 'gll'
  c['mesh']['parts']['k'] = draw(st.integers(1, 4))
  if c['mesh']['base']['kind'] == 'grid' and draw(st.integers(0, 2)):
    c['mesh']['periodic'] = [0]
    c['mesh']['parts']['k'] = draw(st.integers(2, 4))
  return c


TOPOS = ['line4', 'line7', 'quad2x2', 'quad3x2', 'quadO', 'quad4x4', 'tri2',
         'tri24', 'hex2', 'hex8', 'hexL', 'tet4', 'prism']
OPS = ['line7', 'quad3x2', 'quad3x3', 'quadO', 'tri2', 'hex4', 'tet4', 'line4']


def labels(case):
  p = case['mesh']['parts']
  return strat.mesh_labels(case['mesh']) + [
      f"parts={p['k']}", f"how={p['how']}"] + (
          ['empty part'] if case['holes'] else [])


def nontrivial(case):
  p = case['mesh']['parts']
  return p['k'] > 1 and (p['how'] != 'even'
                         or bool(case['mesh'].get('periodic')))


SUBS = {
    'structure': core.Sub(case(TOPOS), run_structure, labels, nontrivial,
                          'elements, groups, exchange and assembly'),
    'large': core.Sub(large_case(), run_structure, labels, nontrivial,
                      'as structure, with many nodes'),
    'operators': core.Sub(case(strat.shard_subset(OPS, 2)), run_operators,
                          labels, nontrivial,
                          'integrals and functionals of all kinds'),
}
