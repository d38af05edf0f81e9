"""P19: the Poisson solver returns the Galerkin solution."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, dense, fe, gen, ref, strat

RULE = ('A case is non-trivial if there are nodes that are not constrained in '
        'a mesh which is relabelled, deformed, curved or consists of several '
        'elements.')
PLAN = [
    {'subs': {'galerkin': (40, 500), 'tolerance': (15, 150)},
     'shards': (8, 12), 'env': {}},
    {'subs': {'manufactured': (25, 250)}, 'shards': (4, 6), 'env': {}},
    {'subs': {'interface': (8, 60)}, 'shards': (1, 2), 'env': {}},
    {'subs': {'galerkin': (6, 60), 'tolerance': (3, 30)}, 'shards': (4, 8),
     'env': {}, 'tag': 'big'},
]
ASSUMPTIONS = [
    'Double precision. Meshes without periodic links, which the example does '
    'not support. In the pure Neumann problem the forcing has zero mean, and '
    'solutions are compared up to a constant.']

SHAPES = strat.big_or([
    ['line4', 'gll', 4], ['line7', 'nc', 2], ['quad2x2', 'nc', 2],
    ['quad2x2', 'gll', 3], ['quadL', 'gll', 4], ['quadO', 'nc', 2],
    ['tri2', 'gll', 3], ['tri2', 'nc', 4], ['quad3x2', 'nc', 3],
    ['quad1', 'gll', 6], ['hex2', 'gll', 3], ['hexL', 'nc', 2],
    ['tet4', 'nc', 3], ['tet4', 'gll', 2], ['tri24', 'nc', 2],
], 2, [
    ['quad1', 'gll', 12], ['line300', 'nc', 2], ['line1', 'gll', 20],
    ['quad12x11', 'nc', 3], ['hex1', 'gll', 7], ['quad2x2', 'gll', 8],
    ['quad20x15', 'nc', 2], ['hex5x5x6', 'nc', 2],
], 2)
BOXES = strat.shard_subset([
    [[3], 'gll', 4], [[5], 'nc', 3], [[2, 2], 'nc', 3], [[2, 1], 'gll', 4],
    [[3, 2], 'gll', 3], [[1, 1], 'gll', 6], [[2, 2, 1], 'gll', 3],
    [[1, 1, 1], 'nc', 4], [[2, 2, 2], 'nc', 3]], 2)
BCS = {'dir': {'dir': 'D'}, 'dir+neu': {'dir': 'D', 'neu': 'N'},
       'two': {'neu': 'N', 'dir': 'D', 'dir2': 'D'},
       'inner': {'dir': 'D', 'inner': 'D'},
       'neumann': {'neu': 'N'}, 'none': {}}


@st.composite
def case(draw):
  shape = draw(st.sampled_from(SHAPES))
  mesh = draw(strat.topo_mesh([shape[0]]))
  frac = lambda: draw(st.sampled_from([1., 1., .6, .3, .1]))
  mesh['groups'] = [
      {'name': 'neu', 'what': 'boundary', 'seed': draw(strat.seeds),
       'frac': frac()},
      {'name': 'dir', 'what': 'boundary', 'seed': draw(strat.seeds),
       'frac': frac()},
      {'name': 'inner', 'what': 'interior', 'seed': draw(strat.seeds),
       'frac': .3},
      {'name': 'dir2', 'what': 'boundary', 'seed': draw(strat.seeds),
       'frac': .2}]
  return {'mesh': mesh, 'kind': shape[1], 'n': shape[2],
          'curved': draw(st.one_of(st.none(), strat.seeds)),
          'bc': draw(st.sampled_from(['dir', 'dir', 'two', 'dir+neu', 'inner',
                                      'neumann', 'none'])),
          'rtol': draw(st.sampled_from([None, 1e-3, 1e-7])),
          'seed': draw(strat.seeds)}


@functools.lru_cache(maxsize=None)
def solver(bc, opts, jit=True):
  import jax
  from swirl_fem.examples.poisson import BCType, solve_poisson
  types = {'D': BCType.DIRICHLET, 'N': BCType.NEUMANN}
  conditions = {g: (types[t], 0) for g, t in BCS[bc].items()}
  f = lambda mesh, f: solve_poisson(mesh, f, conditions, **dict(opts))
  if not jit:
    return f
  g = jax.jit(f)
  return lambda mesh, f: g(plain(mesh), f)


@functools.lru_cache(maxsize=None)
def tolerant(bc):
  import jax
  from swirl_fem.examples.poisson import BCType, solve_poisson
  types = {'D': BCType.DIRICHLET, 'N': BCType.NEUMANN}
  conditions = {g: (types[t], 0) for g, t in BCS[bc].items()}
  g = jax.jit(lambda mesh, f, rtol, atol: solve_poisson(
      mesh, f, conditions, rtol=rtol, atol=atol))
  return lambda mesh, *args: g(plain(mesh), *args)


def plain(mesh):
  """Without the (trivial) exchange data, which jit can't compare."""
  return mesh.replace(exchange_unique_indices=None,
                      exchange_gather_indices=None)


class Setup:

  def __init__(self, case, premesh_of=gen.to_premesh, m=None):
    from swirl_fem.core.mesh_refiner import refine_premesh
    self.m = m = m or gen.build(case['mesh'])
    kind, n = case['kind'], case['n']
    p = refine_premesh(premesh_of(m), gen.nodes1d(kind, n))
    mesh = p.finalize()
    self.x = ref.nodes(kind, n)
    self.el = np.asarray(mesh.elements)
    self.X = np.asarray(mesh.node_coords)[self.el]
    self.N = len(mesh.node_coords)
    self.groups = {g: dense.facet_nodes(m, g, self.X, self.el, self.x)
                   for g in m.groups}
    if case.get('curved') is not None:
      amp = .35
      xq = np.linspace(-1, 1, 5)
      for _ in range(8):
        Y = fe.curve(np.asarray(mesh.node_coords), case['curved'], amp)
        S = ref.Space(Y[self.el], self.x, xq, np.ones(5))
        if (S.det / np.abs(S.det).mean(axis=1, keepdims=True)).min() > .1:
          mesh = mesh.replace(node_coords=Y)
          self.X = Y[self.el]
          break
        amp *= .6
    self.mesh = mesh
    q = n - 1 + (m.ndim + 1) // 2
    S = ref.Space(self.X, self.x, ref.nodes('gl', q), ref.weights('gl', q))
    self.K = dense.assemble(dense.stiffness(S), self.el, self.N)
    self.M = dense.assemble(dense.mass(S), self.el, self.N)

  def free(self, bc):
    fixed = [self.groups[g] for g, t in BCS[bc].items() if t == 'D']
    return np.setdiff1d(np.arange(self.N), np.concatenate(
        fixed + [np.zeros(0, int)]))


def run_galerkin(case):
  """Against the dense Galerkin system."""
  import jax.numpy as jnp
  s = Setup(case)
  bc = case['bc']
  free = s.free(bc)
  rng = core.rng_of(case)
  f = rng.normal(size=s.N)
  one = np.ones(s.N)
  singular = len(free) == s.N
  if singular:
    f = f - (one @ s.M @ f) / (one @ s.M @ one)
  fj = jnp.asarray(f)
  u = solver(bc, (('rtol', 1e-11),))(s.mesh, fj)
  core.check(u.shape == (s.N,), 'shape of the solution', got=u.shape)
  u = np.asarray(u)
  fixed = np.setdiff1d(np.arange(s.N), free)
  core.check(not np.any(u[fixed]), 'the solution vanishes at the Dirichlet '
             'nodes', got=np.abs(u[fixed]).max(initial=0))
  if not len(free):
    return
  K = s.K[np.ix_(free, free)]
  b = (s.M @ f)[free]
  if singular:
    want = np.linalg.lstsq(K, b, rcond=1e-12)[0]
    lam = np.linalg.eigvalsh(K)
    cond = lam[-1] / lam[1]
    u = u - u.mean()
    want = want - want.mean()
  else:
    want = np.linalg.solve(K, b)
    cond = np.linalg.cond(K)
  core.close(u[free], want, 'Galerkin solution', rtol=1e-9 * cond,
             scale=np.abs(want).max())
  # natural conditions and stationarity of the energy
  r = (s.K @ u - s.M @ f)[free]
  core.check(np.abs(r).max() <= 1e-9 * np.abs(b).max() + 1e-13 * np.abs(
      s.K).max() * np.abs(u).max(), 'residual at the free nodes',
             got=np.abs(r).max(), rhs=np.abs(b).max())
  # linearity
  a = float(rng.uniform(.5, 2) * rng.choice([-1, 1]))
  ua = np.asarray(solver(bc, (('rtol', 1e-11),))(s.mesh, a * fj))
  if singular:
    ua = ua - ua.mean()
  core.close(ua, a * u, 'linearity in the forcing', rtol=1e-9 * cond,
             scale=abs(a) * np.abs(u).max())


def run_tolerance(case):
  """The residual meets the requested tolerance; so with the default."""
  import jax.numpy as jnp
  s = Setup(case)
  bc = case['bc']
  free = s.free(bc)
  if not len(free):
    return
  rng = core.rng_of(case)
  f = rng.normal(size=s.N)
  if len(free) == s.N:
    one = np.ones(s.N)
    f = f - (one @ s.M @ f) / (one @ s.M @ one)
  rtol = case['rtol']
  opts = () if rtol is None else (('rtol', rtol),)
  u = np.asarray(solver(bc, opts)(s.mesh, jnp.asarray(f)))
  fixed = np.setdiff1d(np.arange(s.N), free)
  core.check(not np.any(u[fixed]), 'boundary values')
  r = (s.K @ u - s.M @ f)[free]
  nb = np.linalg.norm((s.M @ f)[free])
  lim = 1e-5 if rtol is None else rtol
  core.check(np.linalg.norm(r) <= 1.0001 * lim * nb + 1e-12 * nb,
             'residual exceeds the tolerance', got=np.linalg.norm(r) / nb,
             rtol=lim)
  # both tolerances, relative to the size of the right-hand side
  f = f * float(rng.choice([1., 1e-3, 1e3]))
  nb = np.linalg.norm((s.M @ f)[free])
  rel = float(rng.choice([0., 1e-8, 1e-4, 1e-2]))
  ab = float(rng.choice([0., 1e-6, 1e-3, 1e-1, 1., 30.]))
  if not rel and ab < 1e-9 * nb:
    rel = 1e-8
  u = np.asarray(tolerant(bc)(s.mesh, jnp.asarray(f), rel, ab))
  r = (s.K @ u - s.M @ f)[free]
  lim = max(rel * nb, ab)
  core.check(np.linalg.norm(r) <= 1.0001 * lim + 1e-12 * nb,
             'residual exceeds both tolerances', got=np.linalg.norm(r),
             rhs=nb, rtol=rel, atol=ab)
  if lim > 1.01 * nb:
    core.check(not np.any(u), 'iterated although zero meets the tolerance',
               rhs=nb, rtol=rel, atol=ab)


@st.composite
def box_case(draw):
  shape = draw(st.sampled_from(BOXES))
  return {'cells': shape[0], 'kind': shape[1], 'n': shape[2],
          'spacing': draw(st.one_of(st.none(), strat.seeds)),
          'affine': draw(st.one_of(st.none(), strat.seeds)),
          'renum': draw(strat.opt_seed()), 'reorder': draw(strat.opt_seed()),
          'reorient': draw(strat.opt_seed()),
          'facet_orient': draw(strat.opt_seed()),
          'natural': draw(st.sampled_from([False, False, True])),
          'axis': draw(st.integers(0, 2)), 'side': draw(st.integers(0, 1)),
          'seed': draw(strat.seeds)}


def run_manufactured(case):
  """Polynomial solutions in the space, on affine meshes, are exact."""
  import jax.numpy as jnp
  d = len(case['cells'])
  ax, side = case['axis'] % d, case['side']
  rng = core.rng_of(case)
  spec = {'base': {'kind': 'grid', 'n': case['cells']}, 'geom': None}
  for k in ('renum', 'reorder', 'reorient', 'facet_orient'):
    spec[k] = case[k]
  sides = [(a, s) for a in range(d) for s in (0, 1)]
  if case['natural']:
    sides.remove((ax, side))
  spec['groups'] = [{'name': f'side{a}{s}', 'what': 'axis', 'axis': [a, s],
                     'seed': 1} for a, s in sides]
  m = gen.build(spec)
  # box coordinates y in [-1, 1]^d with nonuniform spacing
  Y = np.zeros_like(m.coords)
  for a, n in enumerate(case['cells']):
    t = np.linspace(-1, 1, n + 1)
    if case['spacing'] is not None:
      h = np.exp(np.random.default_rng(case['spacing'] + a).uniform(
          -.6, .6, size=n))
      t = np.concatenate([[-1.], -1 + 2 * np.cumsum(h) / h.sum()])
    Y[:, a] = t[np.round(m.coords[:, a]).astype(int)]
  A, shift = np.eye(d), np.zeros(d)
  if case['affine'] is not None:
    r = np.random.default_rng(case['affine'])
    A = gen.random_affine(r, d) if d > 1 else np.array([[r.uniform(.5, 2)]])
    if case['natural']:   # keep the angles: a rotation and a scaling
      A = gen.random_rotation(r, d) * r.uniform(.5, 2)
    shift = r.uniform(-2, 2, size=d)
  m.coords = Y @ A.T + shift
  from swirl_fem.core.mesh_refiner import refine_premesh
  mesh = refine_premesh(gen.to_premesh(m), gen.nodes1d(
      case['kind'], case['n'])).finalize()
  y = (np.asarray(mesh.node_coords) - shift) @ np.linalg.inv(A).T
  # u = prod_i g_i(y_i): each vanishes at both ends, or has zero slope at one
  deg = case['n'] - 1
  terms = []
  for a in range(d):
    if case['natural'] and a == ax:
      g = np.poly1d([1., 0., -4.])          # slope 0 at 0, zero at -2 and 2
      e = 1. if side == 0 else -1.          # y = side -> 0, other side -> +-2
      g = g(np.poly1d([1., e]))
    else:
      g = np.poly1d([-1., 0., 1.])
      if deg > 2:
        g = g * np.poly1d(rng.uniform(-1, 1, size=deg - 1))
    terms.append(g)
  u = np.ones(len(y))
  H = np.zeros((d, d, len(y)))
  for i in range(d):
    u = u * terms[i](y[:, i])
    for j in range(d):
      v = np.ones(len(y))
      for k in range(d):
        v = v * np.polyder(terms[k], (k == i) + (k == j))(y[:, k]) if (
            (k == i) or (k == j)) else v * terms[k](y[:, k])
      H[i, j] = v
  Ai = np.linalg.inv(A)
  f = -np.einsum('ia,ja,ijn->n', Ai, Ai, H)
  got = box_solver(tuple(sorted(m.groups)))(
      plain(mesh), jnp.asarray(f))
  core.close(got, u, 'polynomial solution', rtol=1e-8,
             scale=max(1e-3, np.abs(u).max()))


@functools.lru_cache(maxsize=None)
def box_solver(names):
  import jax
  from swirl_fem.examples.poisson import BCType, solve_poisson
  bc = {g: (BCType.DIRICHLET, 0.) for g in names}
  return jax.jit(lambda mesh, f: solve_poisson(mesh, f, bc, rtol=1e-13))


def run_interface(case):
  """Without compilation; boundary values which are not supported."""
  import jax.numpy as jnp
  from swirl_fem.examples.poisson import BCType, solve_poisson
  s = Setup(case)
  rng = core.rng_of(case)
  bc = case['bc']
  f = rng.normal(size=s.N)
  if len(s.free(bc)) == s.N:
    one = np.ones(s.N)
    f = f - (one @ s.M @ f) / (one @ s.M @ one)
  fj = jnp.asarray(f)
  a = np.asarray(solver(bc, (), False)(s.mesh, fj))
  b = np.asarray(solver(bc, (), True)(s.mesh, fj))
  core.close(a, b, 'compiled and not compiled', rtol=1e-5,
             scale=np.abs(b).max() + 1e-300)
  kind = [BCType.DIRICHLET, BCType.NEUMANN][int(rng.integers(0, 2))]
  bad = [1., -1e-8, np.zeros(s.N), np.ones(s.N), lambda x: 0.,
         jnp.zeros(s.N), float('nan'), 2][int(rng.integers(0, 8))]
  conditions = {'neu': (BCType.NEUMANN, 0), 'dir': (kind, bad)}
  try:
    solve_poisson(s.mesh, fj, conditions)
  except NotImplementedError:
    pass
  else:
    raise core.Violation(f'boundary value {bad} was accepted')


def labels(case):
  if 'cells' in case:
    return [f"ndim={len(case['cells'])}", f"nodes={case['kind']}{case['n']}",
            'natural' if case['natural'] else 'dirichlet']
  return strat.mesh_labels(case['mesh']) + [
      f"nodes={case['kind']}{case['n']}", f"bc={case['bc']}"] + (
          ['curved'] if case['curved'] is not None else [])


def nontrivial(case):
  if 'cells' in case:
    return case['affine'] is not None or case['reorient'] is not None
  return strat.mesh_nontrivial(case['mesh']) or case['curved'] is not None


SUBS = {
    'galerkin': core.Sub(case(), run_galerkin, labels, nontrivial,
                         'against the dense Galerkin system'),
    'tolerance': core.Sub(case(), run_tolerance, labels, nontrivial,
                          'residual of the solution'),
    'manufactured': core.Sub(box_case(), run_manufactured, labels, nontrivial,
                             'polynomial solutions on affine boxes'),
    'interface': core.Sub(case(), run_interface, labels, nontrivial,
                          'eager calls, rejected boundary values'),
}
