"""P25: solvers are differentiable, batchable and compilable."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, fe, gen, ref, sem as vsem, strat

RULE = ('A case is non-trivial if the mesh is relabelled, deformed, curved or '
        'periodic (linear solver: at least three unknowns).')
PLAN = [
    {'subs': {'integral': (5, 60), 'poisson': (3, 36)}, 'shards': (7, 12),
     'env': {}},
    {'subs': {'stokes': (3, 40)}, 'shards': (9, 14), 'env': {}},
    {'subs': {'cg': (20, 200)}, 'shards': (1, 4), 'env': {}},
]
ASSUMPTIONS = [
    'Double precision. The pure Neumann problem and the derivatives of the '
    'Stokes step with respect to the coordinates are not differentiated. '
    'Cotangents are arbitrary, tangents are admissible data (periodic fields, '
    'boundary data without net flux).']

SHAPES = strat.shard_subset([
    ['line4', 'gll', 4, 'gl', 4], ['quad2x2', 'nc', 2, 'gl', 3],
    ['tri2', 'gll', 3, 'gl', 4], ['quad2x1', 'gl', 3, 'gl', 3],
    ['hex2', 'nc', 2, 'gl', 3], ['quad1', 'gll', 5, 'gll', 6],
    ['tet4', 'gll', 2, 'gll', 3], ['quad3x2', 'gll', 3, 'nc', 4]], 2)
POISSON = strat.shard_subset([
    ['quad2x2', 'gll', 3], ['tri2', 'nc', 2], ['line4', 'gll', 3],
    ['hex2', 'nc', 2], ['quadL', 'gll', 3], ['tet4', 'gll', 2],
    ['quad3x2', 'nc', 2]], 1)
STOKES = strat.shard_subset([
    ['quad2x2', [], 3], ['quad2x2', [0, 1], 3], ['quad3x2', [0], 2],
    ['tri2', [], 2], ['quad1', [], 4], ['hex2', [], 2], ['hex2', [1, 2], 2],
    ['quad2x1', [1], 3], ['quadO', [], 2]], 1)


def dot(a, b):
  import jax
  leaves = jax.tree_util.tree_leaves
  return sum(float(np.vdot(x, y)) for x, y in zip(leaves(a), leaves(b)))


def size(a, b):
  """Magnitude of the terms of the inner product."""
  import jax
  leaves = jax.tree_util.tree_leaves
  return sum(float(np.vdot(np.abs(x), np.abs(y)))
             for x, y in zip(leaves(a), leaves(b)))


def agree(fwd, rev, scale, msg, rtol=1e-9):
  core.close(fwd, rev, msg, rtol=rtol, scale=scale + 1e-300)


def closes(a, b, msg, rtol=1e-10):
  import jax
  leaves = jax.tree_util.tree_leaves
  a, b = leaves(a), leaves(b)
  core.check(len(a) == len(b), msg + ': structure')
  for x, y in zip(a, b):
    core.close(x, y, msg, rtol=rtol,
               scale=max(1e-12, float(np.abs(np.asarray(y)).max(initial=0))))


# ---------------------------------------------------------------------------
# Integrals and covectors.
# ---------------------------------------------------------------------------


@st.composite
def integral_case(draw):
  return draw(fe.case(SHAPES, what=st.sampled_from(
      ['batch', 'derivative', 'derivative', 'second'])))


class Integrals:
  """A nonlinear functional of a scalar, a vector and the coordinates."""

  def __init__(self, case):
    self.s = s = fe.make(case)
    rng = self.rng = core.rng_of(case)
    self.c = rng.uniform(-1, 1, 6)
    self.b = rng.uniform(-1, 1, s.d)
    self.p = fe.jax_poly(ref.random_poly(rng, s.d, 2, total=True))
    c, self.h = fe.normalise(s.coords)
    self.mid = c
    self.quad = gen.quad1d(case['qkind'], case['q'])
    self.free_mesh = s.mesh.replace(exchange_unique_indices=None,
                                    exchange_gather_indices=None)

  def draw(self):
    s, rng = self.s, self.rng
    return (rng.normal(size=s.N), rng.normal(size=(s.N, s.d)),
            rng.normal(size=s.coords.shape) * self.h * .02)

  def point(self):
    import jax.numpy as jnp
    u, v, _ = self.draw()
    return jnp.asarray(u), jnp.asarray(v), jnp.asarray(self.s.coords)

  def space(self, X):
    from swirl_fem.core.fespace import FiniteElementSpace
    mesh = self.free_mesh.replace(node_coords=X)
    return mesh, FiniteElementSpace.create(mesh=mesh, quadrature=self.quad)

  def form(self, u, v, w):
    import jax.numpy as jnp
    from swirl_fem.core.fespace import div, grad
    c, b = self.c, self.b
    return lambda x: w(x) * (
        c[0] * jnp.sin(u(x)) + c[1] * div(v)(x) * u(x) ** 2
        + c[2] * jnp.vdot(b, grad(u)(x)) + c[3] * v(x) @ grad(v)(x) @ b
        + c[4] * self.p((x - self.mid) / self.h)) + c[5] * jnp.vdot(
            grad(w)(x), v(x))

  def functional(self, u, v, X):
    import jax
    mesh, V = self.space(X)
    gv = jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)
    uf = V.scalar_function(mesh.gather(u))
    return V.integrate(self.form(uf, V.vector_function(gv(v)), uf))

  def covector(self, u, v, X):
    import jax
    mesh, V = self.space(X)
    gv = jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)
    uf = V.scalar_function(mesh.gather(u))
    vf = V.vector_function(gv(v))
    local = V.local_covector(lambda w: self.form(uf, vf, w),
                             (V.scalar_function(None),))
    return mesh.scatter(local)


def run_integral(case):
  import jax
  import jax.numpy as jnp
  J = Integrals(case)
  x = J.point()
  both = lambda *a: (J.functional(*a), J.covector(*a))
  compiled = jax.jit(both)
  value = compiled(*x)
  mag = float(np.abs(np.asarray(value[1])).max()) + abs(float(value[0]))
  if case['what'] == 'batch':
    closes(both(*x), value, 'compiled')
    t = J.draw()
    y = tuple(a + jnp.asarray(b) for a, b in zip(x, t))
    other = compiled(*y)
    for axes in [(0, None, None), (None, None, 0), (0, 0, 0)]:
      mixed = [jnp.stack([a, b]) if ax == 0 else a
               for a, b, ax in zip(x, y, axes)]
      want = compiled(*[b if ax == 0 else a for a, b, ax in zip(x, y, axes)])
      got = jax.jit(jax.vmap(both, axes))(*mixed)
      closes([g[0] for g in got], value, f'batched over {axes}')
      closes([g[1] for g in got], want, f'batched over {axes}')
    closes(compiled(*x), value, 'repeated call', rtol=0)
    del other
    return
  d1, d2 = J.draw(), J.draw()
  d1, d2 = [tuple(map(jnp.asarray, d)) for d in (d1, d2)]
  if case['what'] == 'derivative':
    _, t = jax.jit(lambda x, d: jax.jvp(both, x, d))(x, d1)
    h = 1e-5
    plus = compiled(*[a + h * b for a, b in zip(x, d1)])
    minus = compiled(*[a - h * b for a, b in zip(x, d1)])
    for a, b, c in zip(t, plus, minus):
      fd = (np.asarray(b) - np.asarray(c)) / (2 * h)
      core.close(a, fd, 'derivative against differences', rtol=3e-6,
                 scale=float(np.abs(fd).max()) + mag)
    w = (jnp.asarray(J.rng.normal()), jnp.asarray(J.rng.normal(size=J.s.N)))
    g = jax.jit(lambda x, w: jax.vjp(both, *x)[1](w))(x, w)
    agree(dot(w, t), dot(g, d1), size(w, t) + size(g, d1),
          'forward and reverse mode')
    return
  # second derivatives, and the covector as the gradient of the functional
  grad = jax.grad(J.functional, (0, 1, 2))
  hv = jax.jit(lambda x, d: jax.jvp(lambda *a: grad(*a), x, d))
  g, h1 = hv(x, d1)
  _, h2 = hv(x, d2)
  agree(dot(h1, d2), dot(h2, d1), size(h1, d2) + size(h2, d1),
        'symmetry of the second derivatives')
  h = 1e-5
  gs = jax.jit(grad)
  plus, minus = [gs(*[a + s * b for a, b in zip(x, d1)]) for s in (h, -h)]
  for a, b, c, g0 in zip(h1, plus, minus, g):
    fd = (np.asarray(b) - np.asarray(c)) / (2 * h)
    core.close(a, fd, 'second derivative against differences', rtol=1e-5,
               scale=float(np.abs(fd).max()) + float(np.abs(g0).max()))
  # linear in the second of two functions
  def linear(w, u, v, X):
    mesh, V = J.space(X)
    gv = jax.vmap(mesh.gather, in_axes=-1, out_axes=-1)
    uf, wf = (V.scalar_function(mesh.gather(a)) for a in (u, w))
    return V.integrate(J.form(uf, V.vector_function(gv(v)), wf))
  closes(jax.jit(jax.grad(linear))(d1[0], *x), value[1],
         'covector as the gradient of the functional', rtol=1e-9)


# ---------------------------------------------------------------------------
# Poisson.
# ---------------------------------------------------------------------------


@st.composite
def poisson_case(draw):
  shape = draw(st.sampled_from(POISSON))
  mesh = draw(strat.topo_mesh([shape[0]]))
  mesh['groups'] = [
      {'name': 'neu', 'what': 'boundary', 'seed': draw(strat.seeds),
       'frac': .5},
      {'name': 'dir', 'what': 'boundary', 'seed': draw(strat.seeds),
       'frac': draw(st.sampled_from([1., .6, .3]))}]
  return {'mesh': mesh, 'kind': shape[1], 'n': shape[2],
          'curved': draw(st.one_of(st.none(), strat.seeds)),
          'bc': draw(st.sampled_from(['dir', 'dir+neu'])),
          'what': draw(st.sampled_from(['batch', 'derivative', 'derivative'])),
          'seed': draw(strat.seeds)}


def run_poisson(case, boundary=False):
  """With cotangents which vanish at the Dirichlet nodes, unless `boundary`.

  The others are a known finding: the transposed solve doesn't converge.
  """
  import jax
  import jax.numpy as jnp
  from checks import p19_poisson as P
  s = P.Setup(case)
  free = s.free(case['bc'])
  if not len(free):
    return
  if len(free) == s.N:
    raise core.HarnessError('no constrained node')
  solve_ = P.solver(case['bc'], (('rtol', 1e-13),), jit=False)
  mesh = P.plain(s.mesh)
  cond = np.linalg.cond(s.K[np.ix_(free, free)])
  tol = 1e-9 + 1e-13 * cond
  sol = lambda f, X: solve_(mesh.replace(node_coords=X), f)
  rng = core.rng_of(case)
  X = jnp.asarray(mesh.node_coords)
  h_ = float(np.ptp(np.asarray(X)))
  f, df, w = (jnp.asarray(rng.normal(size=s.N)) for _ in range(3))
  # an own smooth motion of the nodes, which keeps the elements valid
  dX = jnp.asarray((rng.normal(size=X.shape) * h_ * .02))
  csol = jax.jit(sol)
  u = csol(f, X)
  mag = float(np.abs(u).max())
  if case['what'] == 'batch':
    closes(sol(f, X), u, 'compiled', rtol=tol)
    closes(csol(f, X), u, 'repeated call', rtol=0)
    want = csol(df, X)
    got = jax.jit(jax.vmap(sol, (0, None)))(jnp.stack([f, df]), X)
    core.close(got, np.stack([u, want]), 'batched over forcings', rtol=tol)
    X2 = X + .2 * dX
    got = jax.jit(jax.vmap(sol, (None, 0)))(f, jnp.stack([X, X2]))
    core.close(got, np.stack([u, csol(f, X2)]), 'batched over meshes',
               rtol=tol)
    return
  _, t = jax.jit(lambda x, d: jax.jvp(sol, x, d))((f, X), (df, dX))
  h = 1e-5
  fd = np.asarray(csol(f + h * df, X + h * dX)
                  - csol(f - h * df, X - h * dX)) / (2 * h)
  core.close(t, fd, 'derivative against differences', rtol=1e-5 + 1e6 * 1e-13,
             scale=np.abs(fd).max() + mag)
  if not boundary:
    w = jnp.zeros(s.N).at[free].set(w[free])
  g = jax.jit(lambda x, w: jax.vjp(sol, *x)[1](w))((f, X), w)
  agree(dot(w, t), dot(g, (df, dX)), size(w, t) + size(g, (df, dX)),
        'forward and reverse mode', rtol=tol)
  # the solution operator is symmetric after the mass matrix
  fixed = np.setdiff1d(np.arange(s.N), free)
  adj = np.zeros(s.N)
  adj[free] = np.linalg.solve(s.K[np.ix_(free, free)], np.asarray(w)[free])
  core.close(g[0], s.M @ adj, 'adjoint with respect to the forcing',
             rtol=tol, scale=np.abs(s.M @ adj).max())
  del fixed


# ---------------------------------------------------------------------------
# Stokes.
# ---------------------------------------------------------------------------


@st.composite
def stokes_case(draw):
  return draw(vsem.case(
      STOKES, bcs=('dir', 'mixed', 'neumann', 'none'),
      mu=st.sampled_from([1., 1e-2, 5.]), dt=st.sampled_from([.1, 1e-2, .5]),
      time_order=st.integers(1, 3), alpha=st.sampled_from([0., .05, .3]),
      what=st.sampled_from(['batch', 'reverse', 'reverse', 'rollout'])))


def run_stokes(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  m = gen.build(case['mesh'])
  s = StokesSEM.create(gen.to_premesh(m), vsem.boundary_conditions(
      m, case['bc']), order=case['order'])
  r = vsem.RefSEM(m, case['order'], case['bc'], s)
  if not np.any(r.mask > 0):
    return
  rng = core.rng_of(case)
  d, k = r.d, case['time_order']
  closed = np.abs(ref.exchange(r.Dt(np.ones(r.P)), r.cls)).max() < (
      1e-9 * np.abs(r.Dm).max())
  # skip degenerate pairs, whose pressure isn't determined
  lam = np.linalg.eigvalsh(r.pressure_matrix())
  rank = int(np.sum(lam > 1e-10 * lam[-1]))
  if rank < r.P - (1 if closed else 0):
    return
  condE = lam[-1] / lam[r.P - rank]
  if condE > 1e6:
    return
  constrained = r.mask == 0
  bdry = constrained.any() and m.links is None
  per = r.periodic

  def data():
    us = [jnp.asarray(per(rng.normal(size=(r.N, d)))) for _ in range(k)]
    ps = [jnp.asarray(rng.normal(size=r.P)) for _ in range(max(k, 2))]
    f = jnp.asarray(per(rng.normal(size=(r.N, d))))
    # boundary data: constants have no net flux
    ub = np.zeros((r.N, d)) + (rng.normal(size=d) if bdry else 0.)
    if bdry and not closed:
      ub = rng.normal(size=(r.N, d))
    return (us, ps, f, jnp.asarray(ub))

  def step(us, ps, f, ub, mu, dt):
    f = s.B(f) - s.C(us[-1])
    return s.stokes_one_step(
        us, ps, f, mu=mu, dt=dt, time_order=k, alpha=case['alpha'],
        u_boundary=ub if bdry else None, project_out_nullspace=closed,
        tol=1e-13)[:2]
  tol = 1e-8 + 1e-12 * condE
  mu, dt = case['mu'], case['dt']
  x, dx = data(), data()
  if case['what'] == 'batch':
    fn = lambda x: step(*x, mu, dt)
    compiled = jax.jit(fn)
    want = compiled(x)
    y = jax.tree_util.tree_map(lambda a, b: .3 * a + b, x, dx)
    other = compiled(y)
    both = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), x, y)
    got = jax.jit(jax.vmap(fn))(both)
    for a, b, c in zip(got, want, other):
      core.close(a, np.stack([b, c]), 'batched over states', rtol=tol,
                 scale=float(max(np.abs(want[0]).max(), np.abs(b).max(),
                                 np.abs(c).max(), np.abs(other[0]).max())))
    closes(compiled(x), want, 'repeated call', rtol=0)
    for a, b in zip(fn(x), want):
      core.close(a, b, 'compiled', rtol=tol, scale=float(
          max(np.abs(want[0]).max(), np.abs(b).max())))
    return
  if case['what'] == 'rollout':
    def fn(x, mu, dt):
      us, ps, f, ub = x
      for _ in range(2):
        u, p = step(us, ps, f, ub, mu, dt)
        us, ps = us[1:] + [u], ps[1:] + [p]
      return u, p
    # keep the velocities and steps such that the flow stays moderate
    x = jax.tree_util.tree_map(lambda a: .1 * a, x)
    dx = jax.tree_util.tree_map(lambda a: .1 * a, dx)
  else:
    fn = lambda x, mu, dt: step(*x, mu, dt)
  args, tang = (x, mu, dt), (dx, .3 * mu, .2 * dt)
  value, t = jax.jit(lambda a, b: jax.jvp(fn, a, b))(args, tang)
  h = 1e-5
  at = lambda e: jax.tree_util.tree_map(lambda a, b: a + e * b, args, tang)
  compiled = jax.jit(fn)
  plus, minus = compiled(*at(h)), compiled(*at(-h))
  for a, b, c, v in zip(t, plus, minus, value):
    fd = (np.asarray(b) - np.asarray(c)) / (2 * h)
    core.close(a, fd, 'derivative against differences',
               rtol=1e-5 + 1e5 * 1e-13 * condE,
               scale=float(np.abs(fd).max() + np.abs(v).max()))
  w = tuple(jnp.asarray(rng.normal(size=v.shape)) for v in value)
  g = jax.jit(lambda a, w: jax.vjp(fn, *a)[1](w))(args, w)
  agree(dot(w, t), dot(g, tang), size(w, t) + size(g, tang),
        'forward and reverse mode', rtol=tol)


# ---------------------------------------------------------------------------
# Conjugate gradients.
# ---------------------------------------------------------------------------


@st.composite
def cg_case(draw):
  return {'n': draw(st.sampled_from([1, 3, 8, 20])), 'seed': draw(strat.seeds),
          'cond': draw(st.sampled_from([1., 10., 1e3])),
          'batch': draw(st.integers(1, 4)), 'pre': draw(st.booleans())}


def run_cg(case):
  import jax
  import jax.numpy as jnp
  from jax import lax
  from swirl_fem.linalg.cg import cg
  rng = core.rng_of(case)
  n, k = case['n'], case['batch']
  Q, _ = np.linalg.qr(rng.normal(size=(n, n)))
  S = (Q * np.exp(rng.uniform(0, np.log(case['cond']), n))) @ Q.T
  w = np.exp(rng.uniform(-1, 1, n))
  M = (lambda r: jnp.asarray(w) * r) if case['pre'] else None
  B = rng.normal(size=(k, n)) * 10. ** rng.integers(-3, 4, size=(k, 1))
  S, B = jnp.asarray(S), jnp.asarray(B)
  # The rows stop at different iterations. Rounding errors are amplified along
  # the iteration; runs from perturbed data tell by how much.
  tols = jnp.asarray(rng.choice([.5, .1, .01], k))
  solve = lambda S, b, tol: cg(lambda v: S @ v, b, tol=tol, M=M)
  batched = jax.jit(jax.vmap(solve, (None, 0, 0)))
  x, info = batched(S, B, tols)
  noise, stable = np.zeros(k), np.ones(k, bool)
  for _ in range(4):
    P = B * (1 + 1e-13 * jnp.asarray(rng.normal(size=B.shape)))
    z, other = batched(S, P, tols)
    stable &= np.asarray(other['num_iterations'] == info['num_iterations'])
    noise = np.maximum(noise, np.abs(np.asarray(z - x)).max(axis=1)
                       / np.maximum(1e-300, np.abs(np.asarray(x)).max(axis=1)))
  for i in range(k):
    if not stable[i] or noise[i] > 1e-7:
      continue
    rtol = 1e-9 + 1e3 * noise[i]
    xi, one = solve(S, B[i], tols[i])
    core.check(int(info['num_iterations'][i]) == int(one['num_iterations']),
               'iterations of a batched solve',
               got=info['num_iterations'], single=one)
    core.close(x[i], xi, 'batched solve', rtol=rtol,
               scale=float(np.abs(xi).max()) + 1e-300)
    xj, two = jax.jit(solve)(S, B[i], tols[i])
    core.check(int(two['num_iterations']) == int(one['num_iterations']),
               'iterations of a compiled solve')
    core.close(xj, xi, 'compiled solve', rtol=rtol,
               scale=float(np.abs(xi).max()) + 1e-300)
  # as the solver of an implicitly differentiated system
  def sol(S, b):
    return lax.custom_linear_solve(
        lambda v: S @ v, b,
        solve=lambda A, b: cg(A, b, tol=1e-14, M=M), symmetric=True,
        has_aux=True)[0]
  b, db, c = (jnp.asarray(rng.normal(size=n)) for _ in range(3))
  E = rng.normal(size=(n, n))
  E = jnp.asarray(E + E.T)
  y, t = jax.jvp(sol, (S, b), (E, db))
  inv = np.linalg.inv(np.asarray(S))
  want = inv @ (np.asarray(db) - np.asarray(E) @ inv @ np.asarray(b))
  core.close(y, inv @ b, 'solution', rtol=1e-9 * case['cond'])
  core.close(t, want, 'derivative of the solution', rtol=1e-9 * case['cond'])
  gS, gb = jax.vjp(sol, S, b)[1](c)
  core.close(gb, inv @ c, 'gradient of the solution', rtol=1e-9 * case['cond'])
  want = -np.outer(inv @ c, inv @ b)
  core.close(gS + gS.T, want + want.T, 'gradient with respect to the operator',
             rtol=1e-9 * case['cond'])


SUBS = {
    'integral': core.Sub(integral_case(), run_integral, lambda c: fe.labels(
        c) + [f"what={c['what']}"], fe.nontrivial,
                         'integrals and covectors'),
    # not drawn at random; replayed for the known finding
    'poisson_boundary_cotangent': core.Sub(
        poisson_case(), functools.partial(run_poisson, boundary=True),
        None, lambda c: True, 'reverse mode from a Dirichlet node'),
    'poisson': core.Sub(poisson_case(), run_poisson,
                        lambda c: strat.mesh_labels(c['mesh']) + [
                            f"what={c['what']}"],
                        lambda c: strat.mesh_nontrivial(c['mesh'])
                        or c['curved'] is not None, 'Poisson solutions'),
    'stokes': core.Sub(stokes_case(), run_stokes, lambda c: vsem.labels(c) + [
        f"what={c['what']}"],
                       lambda c: strat.mesh_nontrivial(c['mesh'])
                       or bool(c['mesh'].get('periodic')),
                       'steps of the flow solver'),
    'cg': core.Sub(cg_case(), run_cg, lambda c: [f"n={c['n']}"],
                   lambda c: c['n'] >= 3, 'linear solver'),
}
