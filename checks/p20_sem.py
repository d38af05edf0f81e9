"""P20: spectral element operators are the discretisations they stand for."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, sem as vsem, strat

RULE = ('A case is non-trivial if the mesh is relabelled or deformed and '
        'consists of several elements, or is periodic.')
PLAN = [
    {'subs': {'operators': (14, 150), 'fields': (10, 110)},
     'shards': (9, 14), 'env': {}},
    {'subs': {'operators': (4, 40), 'fields': (3, 30)}, 'shards': (4, 8),
     'env': {}, 'tag': 'big'},
]
ASSUMPTIONS = [
    'Double precision, multilinear elements. The vorticity is averaged over '
    'the elements around a node, not across periodic boundaries.']

SHAPES = strat.big_or([
    ['quad2x2', [], 4], ['quad2x2', [0, 1], 3], ['quad3x2', [0], 2],
    ['tri2', [], 3], ['quad1', [1], 5], ['quadL', [], 3], ['quadO', [], 2],
    ['quad3x3', [0, 1], 2], ['quad2x1', [1], 6], ['hex2', [], 2],
    ['tet4', [], 2], ['hex2', [1, 2], 3], ['quad4x4', [0], 2],
    ['hex4', [0, 1, 2], 2]], 2, [
        ['quad1', [0], 11], ['quad2x2', [], 8], ['hex1', [], 5],
        ['quad12x11', [0, 1], 2], ['quad20x15', [], 2], ['hex2', [], 4],
        ['quad2x2', [0, 1], 9], ['hex5x5x6', [0, 1], 2]], 2)


@st.composite
def case(draw):
  return draw(vsem.case(SHAPES, overint=st.sampled_from([2, 2, 0, 3]),
                        alpha=st.sampled_from([0., .05, .3, 1.]),
                        dt=st.sampled_from([.1, 1e-3, 2.]),
                        time_order=st.integers(1, 3)))


def create(case, m):
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  return StokesSEM.create(
      gen.to_premesh(m), vsem.boundary_conditions(m, case['bc']),
      order=case['order'], num_convection_overint_nodes=case['overint'])


def run_operators(case):
  """Each operator against its dense counterpart."""
  import jax.numpy as jnp
  m = gen.build(case['mesh'])
  s = create(case, m)
  r = vsem.RefSEM(m, case['order'], case['bc'], s, case['overint'])
  rng = core.rng_of(case)
  d = r.d
  core.check(s.velocity.mesh.node_coords.shape == (r.N, d)
             and s.pressure.pspace.mesh.node_coords.shape == (r.P, d),
             'number of the nodes')
  core.close(s.velocity.mesh.node_coords, r.coords, 'velocity nodes',
             rtol=1e-12, scale=np.abs(r.coords).max())
  core.close(s.pressure.pspace.mesh.node_coords, r.pcoords, 'pressure nodes',
             rtol=1e-12, scale=np.abs(r.coords).max())
  core.same(np.asarray(s.velocity.interior_mask), r.mask[:, None],
            'mask of the unconstrained nodes')
  core.check(s.velocity.num_convection_overint_nodes == case['overint'],
             'number of overintegration nodes',
             got=s.velocity.num_convection_overint_nodes)
  u, v = rng.normal(size=(2, r.N, d))
  p, q = rng.normal(size=(2, r.P))
  # some magnitudes
  u = u * 10. ** rng.integers(-3, 4)
  ju, jv, jp, jq = map(jnp.asarray, (u, v, p, q))

  def same(got, want, what):
    core.close(got, want, what, rtol=1e-11,
               scale=np.abs(want).max() + 1e-13 * np.abs(u).max())

  same(s.B(ju), r.B(u), 'mass')
  same(s.velocity_mass_diag, np.repeat(r.mass[:, None], d, 1), 'mass diagonal')
  same(s.Bi(ju), r.Bi(u), 'inverse mass')
  c = r.periodic(u)
  same(s.Bi(jnp.asarray(r.mass[:, None] * c)), c, 'the inverse of the mass')
  same(s.A(ju), r.A(u), 'stiffness')
  same(s.C(ju), r.C(u), 'convection')
  same(s.D(ju), r.D(u), 'divergence')
  same(s.Dt(jp), r.Dt(p), 'gradient')
  same(s.pressure.B(jp), r.PM @ p, 'pressure mass')
  same(s.filter(ju, alpha=case['alpha']), r.filter(u, case['alpha']), 'filter')
  if d == 2:
    same(s.vorticity(ju), r.vorticity(u), 'vorticity')
  same(s.velocity.exchange(ju), ref.exchange(u, r.cls), 'exchange')
  same(s.velocity.gather(ju), u[r.el], 'gather')
  beta = {1: 1., 2: 1.5, 3: 11. / 6}[case['time_order']]
  fac = case['dt'] / beta
  same(s.Q(ju, case['dt'], case['time_order']), fac * r.Bi(u), 'Q')
  E = lambda t: fac * r.D(r.Bi(r.Dt(t)))
  Ep = np.asarray(s.E(jp, case['dt'], case['time_order']))
  same(Ep, E(p), 'pressure operator')

  # the algebraic relations, on the code's own results
  dot = lambda a, b: float(np.vdot(np.asarray(a), np.asarray(b)))
  mk = r.mask[:, None]
  Au, Av = s.A(jnp.asarray(mk * u)), s.A(jnp.asarray(mk * v))
  sc = np.abs(r.K).max() * np.abs(u).sum() * np.abs(v).max()
  core.close(dot(Au, mk * v), dot(mk * u, Av), 'symmetry of the stiffness',
             rtol=1e-12, scale=sc)
  core.check(dot(Au, mk * u) >= -1e-12 * sc * np.abs(u).max(),
             'the stiffness is positive')
  core.close(s.A(jnp.ones((r.N, d))), np.zeros((r.N, d)),
             'constants are in the kernel', scale=np.abs(r.K).sum(1).max(),
             rtol=1e-12)
  core.close(dot(s.D(jnp.asarray(mk * u)), p), dot(s.Dt(jp), u),
             'gradient and divergence are transposes', rtol=1e-11,
             scale=np.abs(r.Dm).sum() * np.abs(u).max() * np.abs(p).max() / r.N)
  Eq = np.asarray(s.E(jq, case['dt'], case['time_order']))
  sc = np.abs(Ep).max() * np.abs(q).sum() + np.abs(Eq).max() * np.abs(p).sum()
  core.close(dot(Ep, q), dot(p, Eq), 'symmetry of the pressure operator',
             rtol=1e-12, scale=sc)
  core.check(dot(Ep, p) >= -1e-12 * sc, 'the pressure operator is positive')
  for name, z in [('B', s.B(ju)), ('A', s.A(ju)), ('C', s.C(ju)),
                  ('Dt', s.Dt(jp))]:
    core.check(not np.any(np.asarray(z)[r.mask == 0]),
               f'constrained nodes receive zero from {name}')


def run_fields(case):
  """Polynomial fields, for which the result is known without quadrature."""
  import jax.numpy as jnp
  case = dict(case)
  case['mesh'] = dict(case['mesh'], geom=dict(
      case['mesh']['geom'] or {}, jitter=None))
  m = gen.build(case['mesh'])
  s = create(case, m)
  o, d = case['order'], m.ndim
  rng = core.rng_of(case)
  x = np.asarray(s.velocity.mesh.node_coords)
  c, h = .5 * (x.max(0) + x.min(0)), np.ptp(x, axis=0).max() / 2
  y = (x - c) / h
  # total degree k is within the space on any multilinear element
  low = [ref.random_poly(rng, d, o - 1, total=True) for _ in range(d)]
  top = [ref.random_poly(rng, d, o, total=True) for _ in range(d)]
  val = lambda ps: np.stack([t(y) for t in ps], axis=-1)
  u = val(low)
  got = s.filter(jnp.asarray(u), alpha=case['alpha'])
  core.close(got, u, 'the filter keeps lower degrees', rtol=1e-11,
             scale=np.abs(u).max() + 1)
  U = val(top)
  got = np.asarray(s.filter(jnp.asarray(U), alpha=case['alpha']))
  corners = np.isin(np.round(x, 9), np.round(m.coords, 9)).all(1)
  dist = np.abs(x[:, None] - m.coords[None]).max(-1).min(1)
  corners = dist < 1e-9 * h
  core.close(got[corners], U[corners], 'the filter keeps the vertices',
             rtol=1e-11, scale=np.abs(U).max() + 1)
  core.close(s.filter(jnp.asarray(U), alpha=0.), U, 'no filter', rtol=1e-14,
             scale=np.abs(U).max())
  if d == 2:
    w = (top[1].diff(0)(y) - top[0].diff(1)(y)) / h
    core.close(s.vorticity(jnp.asarray(U)), w, 'vorticity', rtol=1e-9,
               scale=np.abs(w).max() + np.abs(U).max() / h * o * o)
  # a rotated gradient (curl) has no divergence
  if d >= 2:
    psi = ref.random_poly(rng, d, o, total=True)
    i, j = rng.permutation(d)[:2]
    V = np.zeros((len(x), d))
    V[:, i], V[:, j] = psi.diff(j)(y), -psi.diff(i)(y)
    core.close(s.D(jnp.asarray(V)), np.zeros(s.pressure.pspace.mesh.num_nodes),
               'divergence of a curl', rtol=1e-11, scale=float(np.abs(V).max()
               * np.abs(np.asarray(s.velocity_mass_diag)).sum() / h * o * o))
  # the total divergence against an exact polynomial
  div = sum(t.diff(k)(y) for k, t in enumerate(low)) / h
  one = jnp.ones(s.pressure.pspace.mesh.num_nodes)
  got = float(jnp.vdot(s.D(jnp.asarray(u)), one))
  want = exact_integral(m, c, h, low, o)
  core.close(got, want, 'total divergence', rtol=1e-10,
             scale=np.abs(div).max() * np.asarray(
                 s.velocity_mass_diag)[:, 0].sum() + 1e-10)
  # mean of the mass matrix: the volume
  vol = float(np.asarray(s.velocity_mass_diag)[:, 0].sum())
  E = ref.Space(m.coords[m.elements], np.array([-1., 1.]), ref.nodes('gl', 4),
                ref.weights('gl', 4))
  core.close(vol, E.integrate(np.ones_like(E.det)), 'volume', rtol=1e-11)
  # the vertex mass is positive: det > 0
  core.check(np.all(np.asarray(s.velocity_mass_diag) > 0), 'mass is positive')
  if o % 2 and 'renum' in case['mesh']:
    from swirl_fem.core.mesh_refiner import refine_premesh
    from swirl_fem.navier_stokes.navier_stokes import StokesSEM
    fine = refine_premesh(gen.to_premesh(m), gen.nodes1d('gll', 3))
    try:
      StokesSEM.create(fine, {}, order=o)
    except ValueError:
      pass
    else:
      raise core.Violation('a mesh of order 2 was accepted')


def exact_integral(m, c, h, ps, o):
  q = o + 3
  S = ref.Space(m.coords[m.elements], np.array([-1., 1.]), ref.nodes('gl', q),
                ref.weights('gl', q))
  y = (S.coords - c) / h
  return S.integrate(sum(t.diff(k)(y) for k, t in enumerate(ps)) / h)


def nontrivial(case):
  return strat.mesh_nontrivial(case['mesh']) or bool(
      case['mesh'].get('periodic'))


SUBS = {
    'operators': core.Sub(case(), run_operators, vsem.labels, nontrivial,
                          'operators against dense matrices'),
    'fields': core.Sub(case(), run_fields, vsem.labels, nontrivial,
                       'polynomial fields'),
}
