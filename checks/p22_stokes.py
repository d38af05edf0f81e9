"""P22: a Stokes step obeys the discrete system."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, sem as vsem, strat

RULE = ('A case is non-trivial if the flow has free velocity nodes and the '
        'mesh consists of several elements or is periodic.')
PLAN = [
    {'subs': {'step': (7, 90), 'steady': (4, 40)}, 'shards': (9, 14),
     'env': {}},
    {'subs': {'step': (3, 30), 'steady': (2, 20)}, 'shards': (3, 6), 'env': {},
     'tag': 'big'},
    {'subs': {'order': (2, 12)}, 'shards': (2, 2), 'env': {}},
]
ASSUMPTIONS = [
    'Double precision, multilinear elements; the force is given as a covector '
    'which is zero at constrained nodes (such as B of a field); enclosed flows '
    'have boundary data without net flux, open ones are solved without the '
    'projection of the constant pressure. Prescribed values are kept exactly '
    'if the filter is off or the data has lower degree than the elements.',
    'Time orders 1 to 3.']

SHAPES = strat.big_or([
    ['quad2x2', [], 3], ['quad2x2', [0, 1], 3], ['quad3x2', [0], 2],
    ['tri2', [], 3], ['quad1', [], 5], ['quadL', [], 2], ['quad2x1', [1], 4],
    ['quad3x3', [0, 1], 2], ['hex2', [], 2], ['hex2', [1, 2], 2],
    ['quadO', [], 2], ['tet4', [], 2], ['quad2x2', [], 4], ['hex1', [], 3]], 2, [
        ['quad1', [], 9], ['quad2x2', [0, 1], 7], ['hex1', [], 4],
        ['quad12x11', [0], 2], ['quad20x15', [], 2], ['quad2x1', [], 8]], 2)
AFFINE = strat.shard_subset([
    ['quad2x2', [], 3], ['quad2x1', [], 4], ['quad1', [], 5], ['hex2', [], 3],
    ['quadL', [], 3], ['quad3x2', [], 4], ['quadO', [], 3]], 1)


@st.composite
def case(draw, shapes=SHAPES):
  return draw(vsem.case(
      shapes, bcs=('dir', 'dir', 'mixed', 'two', 'neumann', 'none'),
      mu=st.sampled_from([1., 1e-2, 5., 0.]),
      dt=st.sampled_from([.1, 1e-3, .5]), time_order=st.integers(1, 3),
      alpha=st.sampled_from([0., .05, .05, .5]),
      bdata=st.sampled_from(['none', 'values', 'field']),
      force=st.sampled_from(['zero', 'field', 'convection']),
      steps=st.sampled_from([1, 1, 2, 3]),
      pre=st.sampled_from(['default', 'default', 'own']),
      extra_ps=st.booleans(), defaults=st.booleans()))


def create(case, m):
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  return StokesSEM.create(
      gen.to_premesh(m), vsem.boundary_conditions(m, case['bc']),
      order=case['order'])


def poly_field(rng, d, deg, y):
  """A polynomial vector field without divergence (a curl), if d > 1."""
  out = np.zeros(y.shape)
  for i in range(d):
    for j in range(i):
      psi = ref.random_poly(rng, d, deg + 1, total=True)
      out[:, i] += psi.diff(j)(y)
      out[:, j] -= psi.diff(i)(y)
  return out


def run_step(case):
  """Steps from any history against dense solves."""
  import jax.numpy as jnp
  m = gen.build(case['mesh'])
  s = create(case, m)
  r = vsem.RefSEM(m, case['order'], case['bc'], s)
  rng = core.rng_of(case)
  k, dt, mu, alpha = (case[t] for t in ('time_order', 'dt', 'mu', 'alpha'))
  d = r.d
  c, h = .5 * (r.coords.max(0) + r.coords.min(0)), np.ptp(r.coords) / 2
  y = (r.coords - c) / h
  per = r.periodic
  us = [per(rng.normal(size=(r.N, d))) for _ in range(k)]
  ps = [rng.normal(size=r.P) for _ in range(k if k > 1 else 2)]
  if case['extra_ps']:
    ps = [rng.normal(size=r.P)] + ps
  mk = r.mask[:, None]
  constrained = r.mask == 0
  if not np.any(r.mask > 0):
    return
  # the closed flow is known by the kernel of the gradient
  closed = np.abs(ref.exchange(r.Dt(np.ones(r.P)), r.cls)).max() < (
      1e-9 * np.abs(r.Dm).max())
  ub = None
  if constrained.any() and case['bdata'] != 'none':
    if m.links is None:
      low = poly_field(rng, d, case['order'] - 1, y)
    else:
      low = np.zeros((r.N, d)) + rng.normal(size=d)
    if case['bdata'] == 'values' and alpha == 0:
      ub = per(rng.normal(size=(r.N, d))) * (1 - mk)
      if closed:     # remove the net flux
        g = r.periodic(ref.exchange(
            np.einsum('pnd->nd', r.Dm), r.cls)) * (1 - mk)
        g = g / ref.exchange(np.ones(r.N), r.cls)[:, None]
        flux = r.D(ub).sum()
        ub = ub - g * flux / max(r.D(g).sum(), 1e-300) if r.D(
            g).sum() > 1e-9 else low * (1 - mk)
    elif case['bdata'] == 'values':
      ub = low
    else:
      ub = low + (mk * per(rng.normal(size=(r.N, d))) if alpha == 0 else 0)
  if closed and m.links is not None and ub is not None:
    # constants are admissible on fully periodic directions only
    if abs(r.D(ub).sum()) > 1e-9:
      ub = None
  defaults = case['defaults'] and alpha == .05
  opts = dict(mu=mu, dt=dt, time_order=k, alpha=alpha, tol=1e-13)
  if defaults:
    del opts['alpha'], opts['tol']
  if ub is not None:
    opts['u_boundary'] = jnp.asarray(ub)
  if not closed:
    opts['project_out_nullspace'] = False
  if not closed and case['pre'] == 'own':
    w = jnp.asarray(np.exp(rng.uniform(-.7, .7, size=r.P)))
    opts['pressure_preconditioner'] = lambda p: w * p
  for step in range(case['steps']):
    if case['force'] == 'zero':
      f, jf = np.zeros((r.N, d)), 0.
    elif case['force'] == 'field':
      f = r.B(per(rng.normal(size=(r.N, d))))
      jf = jnp.asarray(f)
    else:
      f = -r.C(us[-1])
      jf = -s.C(jnp.asarray(us[-1]))
    copies = core.snapshot(*us, *ps)
    u, p, aux = s.stokes_one_step([jnp.asarray(t) for t in us],
                                  [jnp.asarray(t) for t in ps], jf, **opts)
    core.unchanged(us + ps, copies, 'the history')
    wu, wp, star, dp = r.step(us, ps, f, mu, dt, k, alpha, ub)
    u, p = np.asarray(u), np.asarray(p)
    core.check(u.shape == (r.N, d) and p.shape == (r.P,), 'shapes',
               u=u.shape, p=p.shape)
    if r.null.shape[1] > (1 if closed else 0):
      return       # degenerate pair: the pressure isn't determined
    if r.incompatible > 1e-8 or max(r.condH, r.condE) > 1e7:
      return
    su = max(np.abs(t).max() for t in [wu, star] + us)
    sp = max(np.abs(wp).max(), np.abs(dp).max(), max(
        np.abs(t).max() for t in ps))
    eps = (1e-7 if defaults else 1e-11) * (1e2 + r.condH + r.condE)
    su = max(su, sp * dt * np.abs(r.Dt(np.ones(r.P))).max())
    core.close(u, wu, f'velocity after step {step}', rtol=eps, scale=su)
    core.close(p, wp, f'pressure after step {step}', rtol=eps,
               scale=sp)
    # divergence and prescribed values
    dv = r.D(u)
    size = np.abs(r.Dm).sum(axis=(1, 2)).max() * su
    core.check(np.abs(dv).max() <= (1e-6 if defaults else 1e-9) * size, 'divergence', got=np.abs(
        dv).max(), scale=size)
    bound = np.zeros((r.N, d)) if ub is None else ub
    core.close(u[constrained], bound[constrained], 'prescribed values',
               rtol=1e-9, scale=su)
    core.close(u, r.periodic(u), 'periodic images', rtol=1e-9, scale=su)
    core.check({'u_star_info', 'dp_info'} <= set(aux), 'information')
    us = us[1:] + [wu]
    ps = ps[1:] + [wp]


def affine(case):
  return dict(case, mesh=dict(case['mesh'], geom=dict(
      case['mesh']['geom'] or {}, jitter=None)))


def derivative_data(rng, d, deg, pdeg, y, h):
  """(u, p, laplacian u, grad p, u . grad u) of polynomials in y = x / h."""
  N = len(y)
  u, lap = np.zeros((N, d)), np.zeros((N, d))
  G = np.zeros((N, d, d))
  for i in range(d):
    for j in range(i):
      psi = ref.random_poly(rng, d, deg + 1, total=True)
      for (a, b, sgn) in ((i, j, 1), (j, i, -1)):
        q = psi.diff(b)
        u[:, a] += sgn * q(y)
        for l in range(d):
          G[:, l, a] += sgn * q.diff(l)(y) / h
          lap[:, a] += sgn * q.diff(l).diff(l)(y) / h ** 2
  p = ref.random_poly(rng, d, pdeg, total=True)
  return (u, p, lap, p.grad(y) / h, np.einsum('ni,nij->nj', u, G))


def run_steady(case):
  """Polynomial steady states on affine meshes are reproduced."""
  import jax.numpy as jnp
  case = affine(case)
  m = gen.build(case['mesh'])
  from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
  # every boundary facet is prescribed
  m.groups = {'all': m.boundary}
  o, d = case['order'], m.ndim
  s = StokesSEM.create(gen.to_premesh(m), {'all': (BCType.DIRICHLET, 0.)},
                       order=o)
  rng = core.rng_of(case)
  x = np.asarray(s.velocity.mesh.node_coords)
  xp = np.asarray(s.pressure.pspace.mesh.node_coords)
  c, h = .5 * (x.max(0) + x.min(0)), np.ptp(x) / 2
  conv = case['force'] == 'convection' and o >= 4
  deg = o // 2 if conv else o - 1
  u, p, lap, gp, ugu = derivative_data(rng, d, deg, o - 2, (x - c) / h, h)
  pv = p((xp - c) / h)
  mu, dt, k = case['mu'], case['dt'], case['time_order']
  f = s.B(jnp.asarray(-mu * lap + gp + (ugu if conv else 0.)))
  if conv:
    f = f - s.C(jnp.asarray(u))
  inner = np.asarray(s.velocity.interior_mask)
  ub = u if case['bdata'] == 'field' else u * (1 - inner)
  if case['bdata'] != 'field':
    case = dict(case, alpha=0.)
  us, ps = [jnp.asarray(u)] * k, [jnp.asarray(pv)] * max(k, 2)
  for _ in range(case['steps']):
    un, pn, _ = s.stokes_one_step(
        us, ps, f, mu, dt, k, alpha=case['alpha'], u_boundary=jnp.asarray(ub),
        tol=1e-13, atol=1e-13)
    us, ps = us[1:] + [un], ps[1:] + [pn]
  sc = np.abs(u).max() * (1 + mu / h ** 2) + np.abs(pv).max() / h * dt
  core.close(un, u, 'steady velocity', rtol=1e-7, scale=sc)
  core.close(pn, pv, 'steady pressure', rtol=1e-6,
             scale=np.abs(pv).max() + sc * h / dt)


@st.composite
def order_case(draw):
  return draw(vsem.case(
      [['quad2x1', [], 4], ['quad1', [], 5]], bcs=('dir',),
      time_order=st.integers(1, 3), mu=st.sampled_from([1., .1]),
      omega=st.sampled_from([1., 2.]), T=st.sampled_from([.25, .5]),
      phase=st.sampled_from([0., .4, 1.1])))


def run_order(case):
  """The error decreases with the order of the scheme as dt is halved."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
  case = affine(case)
  m = gen.build(case['mesh'])
  m.groups = {'all': m.boundary}
  o, d = case['order'], m.ndim
  s = StokesSEM.create(gen.to_premesh(m), {'all': (BCType.DIRICHLET, 0.)},
                       order=o)
  rng = core.rng_of(case)
  x = np.asarray(s.velocity.mesh.node_coords)
  xp = np.asarray(s.pressure.pspace.mesh.node_coords)
  c, h = .5 * (x.max(0) + x.min(0)), np.ptp(x) / 2
  U, p, lap, gp, _ = derivative_data(rng, d, o - 1, o - 2, (x - c) / h, h)
  P = p((xp - c) / h)
  P = P - P.mean()
  w, ph, T, k, mu = (case[t] for t in ('omega', 'phase', 'T', 'time_order',
                                       'mu'))
  g, dg = lambda t: np.cos(w * t + ph), lambda t: -w * np.sin(w * t + ph)
  q = lambda t: np.sin(w * t + ph)

  @jax.jit
  def step(us, ps, f, ub, dt):
    u, p, _ = s.stokes_one_step(us, ps, f, mu, dt, k, alpha=0.,
                                u_boundary=ub, tol=1e-12, atol=1e-13)
    return u, p

  def error(n):
    dt = T / n
    ts = [dt * i for i in range(-k, 1)]
    us = [jnp.asarray(g(t) * U) for t in ts[-k:]]
    ps = [jnp.asarray(q(t) * P) for t in ts[-max(k, 2):]]
    for i in range(1, n + 1):
      t = i * dt
      f = s.B(jnp.asarray(dg(t) * U - mu * g(t) * lap + q(t) * gp))
      u, pn = step(us, ps, f, jnp.asarray(g(t) * U), dt)
      us, ps = us[1:] + [u], ps[1:] + [pn]
    return np.abs(np.asarray(u) - g(T) * U).max()

  e1, e2, e3 = error(8), error(16), error(32)
  floor = 1e-8 * np.abs(U).max()
  need = 1.6 if k == 1 else 2.8
  core.check(e3 < floor or e1 / e3 > need ** 2,
             'the error does not decrease with the order of the scheme',
             order=k, errors=[e1, e2, e3])
  core.check(e3 < .1 * (1 + w) ** 2 * (np.abs(U).max() + np.abs(gp).max()),
             'error', errors=[e1, e2, e3])


def labels(case):
  out = vsem.labels(case) + [f"time_order={case['time_order']}"]
  for k in ('alpha', 'bdata', 'force', 'steps'):
    if k in case:
      out.append(f'{k}={case[k]}')
  return out


def nontrivial(case):
  return strat.mesh_nontrivial(case['mesh']) or bool(
      case['mesh'].get('periodic'))


SUBS = {
    'step': core.Sub(case(), run_step, labels, nontrivial,
                     'steps from any history against dense solves'),
    'steady': core.Sub(case(AFFINE), run_steady, labels, nontrivial,
                       'polynomial steady states'),
    'order': core.Sub(order_case(), run_order, labels, nontrivial,
                      'convergence in time'),
}
