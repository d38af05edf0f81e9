"""P28: results do not depend on the numbering, ordering and orientation."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, sem as vsem, strat

RULE = ('A case is non-trivial if the mesh has several elements, and at least '
        'one of the numbering, the order or the local axes of its elements '
        'differs.')
PLAN = [
    {'subs': {'operators': (10, 120)}, 'shards': (6, 8), 'env': {}},
    {'subs': {'solve': (10, 120)}, 'shards': (4, 6), 'env': {}, 'tag': 'solve'},
    {'subs': {'flow': (5, 60)}, 'shards': (6, 8), 'env': {}, 'tag': 'flow'},
]
ASSUMPTIONS = [
    'Double precision. Meshes are moved by rotations, reflections (with '
    'elements reoriented to keep them positive), translations and scalings; '
    'fields are transformed along.',
    'Solutions of linear systems are compared up to the tolerance of the '
    'solver.']

MESHES = strat.shard_subset([
    ['quad4x4', [], 'gll', 5], ['quad3x2', [0], 'nc', 4], ['tri24', [], 'gll',
                                                           4],
    ['hex8', [], 'gll', 3], ['hex4', [0, 1], 'nc', 3], ['tet8', [], 'gll', 3],
    ['prism', [], 'nc', 3], ['line7', [], 'gll', 6], ['quadO', [], 'nc', 5],
    ['quad4x4', [0, 1], 'gll', 3], ['hex27', [0, 1, 2], 'nc', 2]], 2)
SOLVES = strat.shard_subset([
    ['quad4x4', [], 'gll', 5], ['tri24', [], 'gll', 4], ['hex8', [], 'nc', 3],
    ['tet8', [], 'gll', 4], ['quadO', [], 'nc', 4], ['line7', [], 'gll', 7],
    ['prism', [], 'gll', 3], ['hexL', [], 'gll', 4]], 2)
FLOWS = strat.shard_subset([
    ['quad4x4', [], 4], ['quad4x4', [0, 1], 4], ['tri24', [], 3],
    ['hex4', [0], 3], ['tet8', [], 2], ['quad3x3', [1], 5], ['hex8', [], 2],
    ['quadO', [], 4], ['prism', [], 2], ['hex8', [0, 1, 2], 3]], 1)


@st.composite
def move(draw):
  return {'renum': draw(strat.opt_seed()), 'reorder': draw(strat.opt_seed()),
          'reorient': draw(strat.opt_seed()), 'flip': draw(st.booleans()),
          'rotate': draw(strat.opt_seed()),
          'shift': draw(st.sampled_from([0., 0., 1., 7.])),
          'scale': draw(st.sampled_from([1., 1., 2., .5, 1.7])),
          'seed': draw(strat.seeds)}


@st.composite
def mesh_case(draw, shapes):
  shape = draw(st.sampled_from(shapes))
  mesh = draw(strat.topo_mesh([shape[0]]))
  if shape[1]:
    mesh['periodic'] = list(shape[1])
  frac = lambda: draw(st.sampled_from([1., .6, .3]))
  mesh['groups'] = [
      {'name': 'neu', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': frac()},
      {'name': 'dir', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': frac()},
      {'name': 'dir2', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': .2}]
  out = {'mesh': mesh, 'move': draw(move()), 'seed': draw(strat.seeds)}
  if len(shape) == 4:
    out['kind'], out['n'] = shape[2:]
  else:
    out['order'] = shape[2]
  return out


def transform(m, t):
  """The moved mesh and the map (Q, scale, shift) of the points."""
  rng = np.random.default_rng(t['seed'])
  d, N, E = m.ndim, m.num_nodes, len(m.elements)
  Q = np.eye(d)
  if t['rotate'] is not None and d > 1:
    Q = gen.random_rotation(np.random.default_rng(t['rotate']), d)
  flip = t['flip']
  if flip:
    Q = Q @ np.diag([-1.] + [1.] * (d - 1))
  shift = t['shift'] * rng.uniform(-1, 1, size=d)
  perm = np.arange(N)
  if t['renum'] is not None:
    perm = np.random.default_rng(t['renum']).permutation(N)
  coords = np.empty_like(m.coords)
  coords[perm] = t['scale'] * m.coords @ Q.T + shift
  elements = perm[m.elements]
  proper = set(gen.symmetries(d, proper=True))
  syms = np.array([s for s in gen.symmetries(d)
                   if (s in proper) != flip])
  pick = np.zeros(E, int)
  if t['reorient'] is not None:
    pick = np.random.default_rng(t['reorient']).integers(
        0, len(syms), size=E)
    elements = np.take_along_axis(elements, syms[pick], axis=1)
  elif flip:
    elements = np.take_along_axis(elements, syms[pick], axis=1)
  order = np.arange(E)
  if t['reorder'] is not None:
    order = np.random.default_rng(t['reorder']).permutation(E)
    elements = elements[order]
  fs = np.array(gen.symmetries(d - 1)).reshape(-1, 2 ** (d - 1))
  groups = {}
  for g, f in m.groups.items():
    f = perm[f]
    if t['reorient'] is not None:
      f = np.stack([r[fs[rng.integers(0, len(fs))]] for r in f])
    if t['reorder'] is not None:
      f = rng.permutation(f)
    groups[g] = f
  links = m.links
  if links is not None:
    links = perm[links]
    if t['reorient'] is not None:
      links = np.stack([l[:, fs[rng.integers(0, len(fs))]] for l in links])
    if t['reorder'] is not None:
      links = rng.permutation(links)
      links = np.stack([l[::-1] if rng.integers(0, 2) else l for l in links])
  out = gen.MeshData(coords=coords, elements=elements, groups=groups,
                     links=links, parts=None)
  return out, (Q, t['scale'], shift), order


def match(X, Y, map_, what):
  """For each node of the one mesh, its index in the other."""
  from scipy.spatial import cKDTree
  Q, lam, shift = map_
  X, Y = np.asarray(X), np.asarray(Y)
  core.check(X.shape == Y.shape, f'{what}: the numbers of nodes differ',
             got=(X.shape, Y.shape))
  Z = lam * X @ Q.T + shift
  dist, idx = cKDTree(Y).query(Z)
  core.check(dist.max() <= 1e-10 * (np.abs(Z).max() + np.ptp(Z)),
             f'{what}: there is no node at the position of a node of the '
             'other mesh', distance=dist.max())
  core.check(len(set(idx.tolist())) == len(idx),
             f'{what}: nodes are not in bijection')
  return idx


def spaces(case, m):
  from swirl_fem.core.fespace import FiniteElementSpace
  from swirl_fem.core.mesh_refiner import refine_premesh
  mesh = refine_premesh(gen.to_premesh(m), gen.nodes1d(
      case['kind'], case['n'])).finalize()
  return mesh, FiniteElementSpace.create(
      mesh=mesh, quadrature=gen.quad1d('gl', case['n'] + 1))


def run_operators(case):
  """Nodes, groups, exchange, integrals, covectors and gradients."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  m = gen.build(case['mesh'])
  m2, map_, order = transform(m, case['move'])
  Q, lam, shift = map_
  d = m.ndim
  rng = core.rng_of(case)
  A, VA = spaces(case, m)
  B, VB = spaces(case, m2)
  to = match(A.node_coords, B.node_coords, map_, 'refined mesh')
  # the elements consist of the same nodes
  eb = np.sort(np.asarray(B.elements), axis=1)
  ea = np.sort(to[np.asarray(A.elements)], axis=1)[order]
  core.same(eb, ea, 'nodes of the elements')
  for g in m.groups:
    core.same(np.asarray(B.physical_masks[g])[to],
              np.asarray(A.physical_masks[g]), f'nodes of the group {g}')
  N = A.num_nodes
  u, v = rng.normal(size=(2, N))
  w = rng.normal(size=(N, d))

  def moved(a):
    b = np.empty_like(a)
    b[to] = a
    return jnp.asarray(b)

  close = functools.partial(core.close, rtol=1e-10)
  ex = np.asarray(A.exchange(jnp.asarray(u)))
  close(np.asarray(B.exchange(moved(u)))[to], ex, 'exchange')
  count = lambda s: np.asarray(s.scatter(s.gather(jnp.ones(N))))
  core.same(count(B)[to], count(A), 'number of the elements of a node')
  close(np.asarray(B.scatter(B.gather(moved(u))))[to],
        np.asarray(A.scatter(A.gather(jnp.asarray(u)))), 'gather and scatter')

  def results(s, V, u, v, w, factor, back):
    """Invariant numbers and covectors."""
    f = V.scalar_function(s.gather(u))
    g = V.scalar_function(s.gather(v))
    h = V.vector_function(jnp.stack(
        [s.gather(w[:, i]) for i in range(d)], axis=-1))
    t = V.scalar_function(None)
    vol = factor ** d
    out = {}
    out['volume'] = V.integrate(lambda x: jnp.ones(())) / vol
    out['product'] = V.integrate(lambda x: f(x) * g(x)) / vol
    out['energy'] = V.integrate(lambda x: jnp.vdot(
        grad(f)(x), grad(g)(x))) / vol * factor ** 2
    out['flux'] = V.integrate(lambda x: div(h)(x) * g(x)) / vol * factor
    out['advection'] = V.integrate(lambda x: jnp.dot(
        h(x), grad(f)(x)) * g(x)) / vol * factor
    out['convection'] = V.integrate(lambda x: jnp.dot(
        h(x) @ grad(h)(x), h(x))) / vol * factor
    cov = {}
    cov['mass'] = s.scatter(V.local_covector(
        lambda a, b: lambda x: a(x) * b(x), (f, t))) / vol
    cov['stiffness'] = s.scatter(V.local_covector(
        lambda a, b: lambda x: jnp.vdot(grad(a)(x), grad(b)(x)), (f, t)
    )) / vol * factor ** 2
    cov['transport'] = s.scatter(V.local_covector(
        lambda a, b: lambda x: jnp.dot(h(x), grad(a)(x)) * b(x), (f, t)
    )) / vol * factor
    return out, {k: np.asarray(c)[back] for k, c in cov.items()}

  na, ca = results(A, VA, jnp.asarray(u), jnp.asarray(v), jnp.asarray(w), 1.,
                   np.arange(N))
  nb, cb = results(B, VB, moved(u), moved(v), moved(w @ Q.T), lam, to)
  size = {'volume': 1., 'product': 1.}
  for k in ca:
    close(cb[k], ca[k], k, scale=np.abs(ca[k]).max() * case['n'] ** 2)
  big = np.abs(ca['stiffness']).sum() + np.abs(ca['transport']).sum()
  for k in na:
    close(nb[k], na[k], k, scale=abs(float(na[k])) * size.get(
        k, case['n']) + (0 if k == 'volume' else 1e-2 * big))


def run_solve(case):
  """Poisson problems."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.examples.poisson import BCType, solve_poisson
  m = gen.build(case['mesh'])
  m2, map_, _ = transform(m, case['move'])
  rng = core.rng_of(case)
  bc = {g: (BCType.DIRICHLET if g != 'neu' else BCType.NEUMANN, 0)
        for g in m.groups}
  sol = []
  x = None
  for k, mm in enumerate([m, m2]):
    mesh = refine_premesh(gen.to_premesh(mm), gen.nodes1d(
        case['kind'], case['n'])).finalize()
    if k == 0:
      x = np.asarray(mesh.node_coords)
      to = np.arange(len(x))
      f = rng.normal(size=len(x))
    else:
      to = match(x, mesh.node_coords, map_, 'refined mesh')
    fk = np.empty_like(f)
    fk[to] = f
    # close over the mesh, which can't be passed
    u = jax.jit(lambda f, mesh=mesh: solve_poisson(
        mesh, f, bc, rtol=1e-13))(jnp.asarray(fk))
    sol.append(np.asarray(u)[to])
  a, b = sol
  core.close(b / map_[1] ** 2, a, 'solution', rtol=1e-7)


def run_flow(case):
  """Operators and steps of the flow solver."""
  import jax.numpy as jnp
  from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
  m = gen.build(case['mesh'])
  m2, map_, _ = transform(m, case['move'])
  Q, lam, _ = map_
  d, o = m.ndim, case['order']
  bc = {g: (BCType.DIRICHLET if g != 'neu' else BCType.NEUMANN, 0.)
        for g in m.groups}
  A, B = (StokesSEM.create(gen.to_premesh(k), bc, order=o) for k in (m, m2))
  to = match(A.velocity.mesh.node_coords, B.velocity.mesh.node_coords, map_,
             'velocity')
  tp = match(A.pressure.pspace.mesh.node_coords,
             B.pressure.pspace.mesh.node_coords, map_, 'pressure')
  core.same(np.asarray(B.velocity.interior_mask)[to],
            np.asarray(A.velocity.interior_mask), 'mask')
  rng = core.rng_of(case)
  N, P = len(to), len(tp)
  # the values of identified nodes agree
  smooth = lambda: np.asarray(A.Bi(A.velocity_mass_diag * jnp.asarray(
      rng.normal(size=(N, d)))))

  def vec(u):
    b = np.empty_like(u)
    b[to] = u @ Q.T
    return jnp.asarray(b)

  def pre(p):
    b = np.empty_like(p)
    b[tp] = p
    return jnp.asarray(b)

  close = functools.partial(core.close, rtol=1e-9)
  u, v = smooth(), smooth()
  p, q = rng.normal(size=(2, P))
  J = jnp.asarray
  back = lambda w: np.asarray(w)[to] @ Q
  vol = lam ** d

  def both(name, a, b, factor):
    close(b / factor, a, name, scale=np.abs(a).max() + 1e-12)
  arr = np.asarray
  both('B', arr(A.B(J(u))), back(B.B(vec(u))), vol)
  both('Bi', arr(A.Bi(J(u))), back(B.Bi(vec(u))), 1 / vol)
  both('A', arr(A.A(J(u))), back(B.A(vec(u))), vol / lam ** 2)
  both('C', arr(A.C(J(u))), back(B.C(vec(u))), vol / lam)
  both('D', arr(A.D(J(u))), arr(B.D(vec(u)))[tp], vol / lam)
  both('Dt', arr(A.Dt(J(p))), back(B.Dt(pre(p))), vol / lam)
  both('E', arr(A.E(J(p), .1, 2)), arr(B.E(pre(p), .1, 2))[tp],
       vol / lam ** 2)
  both('pressure mass', arr(A.pressure.B(J(p))), arr(
      B.pressure.B(pre(p)))[tp], vol)
  both('filter', arr(A.filter(J(u), alpha=.3)), back(
      B.filter(vec(u), alpha=.3)), 1.)
  if d == 2:
    both('vorticity', arr(A.vorticity(J(u))), arr(
        B.vorticity(vec(u)))[to], np.linalg.det(Q) / lam)
  # steps; the closed flow needs the projection
  dt, k = [(.05, 2), (.01, 3), (.1, 1)][case['seed'] % 3]
  mu = .3
  closed = np.abs(arr(A.velocity.exchange(A.Dt(jnp.ones(P))))).max() < (
      1e-9 * np.abs(arr(A.Dt(J(p)))).max())
  if not (arr(A.velocity.interior_mask) > 0).any():
    return
  scale_u = 1e-2
  inner = arr(A.velocity.interior_mask)
  us = [scale_u * u * inner, scale_u * v * inner, scale_u * (u + v) * inner][:k]
  ps = [scale_u * p, scale_u * q, scale_u * (p - q)][:max(k, 2)]
  force = A.B(J(smooth()))
  # Each run is compared with the moved one, and with one from perturbed data,
  # by which the conditioning (and the tolerance of the solver) is judged.
  ra, rb, rc = [], [], []
  nz = [1 + 1e-9 * rng.normal(size=t.shape) for t in us + ps]
  for s, F, us_, ps_, mu_, out in [
      (A, force, [J(t) for t in us], [J(t) for t in ps], mu, ra),
      (B, vol * vec(arr(force)), [vec(t) for t in us],
       [pre(lam * t) for t in ps], mu * lam ** 2, rb),
      (A, force, [J(t * z) for t, z in zip(us, nz)],
       [J(t * z) for t, z in zip(ps, nz[len(us):])], mu, rc)]:
    # u' = Q u needs pressure' = scale^2 p as the gradient has factor 1/scale
    if s is B:
      us_ = [lam * t for t in us_]
      ps_ = [lam * t for t in ps_]
      F = lam * F
    for _ in range(2):
      un, pn, _ = s.stokes_one_step(
          us_, ps_, F, mu_, dt, k, alpha=.05, tol=1e-12, atol=0.,
          project_out_nullspace=closed)
      us_, ps_ = list(us_[1:]) + [un], list(ps_[1:]) + [pn]
      out.append((arr(un), arr(pn)))
  for i, ((ua, pa), (ub, pb), (uc, pc)) in enumerate(zip(ra, rb, rc)):
    if not (np.isfinite(uc).all() and np.isfinite(pc).all()):
      return
    for name, a, b, c in [('velocity', ua, back(ub) / lam, uc),
                          ('pressure', pa, pb[tp] / lam ** 2, pc)]:
      noise = np.abs(c - a).max() / np.abs(a).max()
      if noise > 1e-4:
        return
      core.close(b, a, f'{name} after step {i}', rtol=1e-7 + 100 * noise)


def labels(c):
  t = c['move']
  out = strat.mesh_labels(c['mesh'])
  for k in ('renum', 'reorder', 'reorient', 'rotate'):
    if t[k] is not None:
      out.append(f'move:{k}')
  out += ['move:reflect'] * t['flip'] + ['move:scale'] * (t['scale'] != 1)
  return out


def nontrivial(c):
  t = c['move']
  return any(t[k] is not None for k in ('renum', 'reorder', 'reorient')) or (
      t['flip'])


SUBS = {
    'operators': core.Sub(mesh_case(MESHES), run_operators, labels, nontrivial,
                          'finite element spaces of the moved mesh'),
    'solve': core.Sub(mesh_case(SOLVES), run_solve, labels, nontrivial,
                      'Poisson solutions'),
    'flow': core.Sub(mesh_case(FLOWS), run_flow, labels, nontrivial,
                     'flow operators and steps'),
}
