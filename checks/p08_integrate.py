"""P08: integration is exact, additive and independent of the labelling."""

import numpy as np
from hypothesis import strategies as st

from vf import core, fe, gen, ref, strat

RULE = ('A case is non-trivial if the mesh is relabelled, deformed or curved.')
PLAN = [
    {'subs': {'quadrature': (60, 800), 'exact': (40, 500),
              'relabel': (30, 400), 'refine': (25, 250), 'units': (25, 300)},
     'shards': (8, 16), 'env': {}},
    {'subs': {'quadrature': (12, 150), 'relabel': (6, 80), 'units': (6, 60)},
     'shards': (5, 10), 'env': {}, 'tag': 'big'},
]
ASSUMPTIONS = [
    'Elements with positive Jacobian determinant; double precision.',
    'Exactness is checked for polynomials whose pull-back lies within the '
    'degree of the quadrature.']

SHAPES = strat.big_or(fe.SHAPES, 3, fe.BIG, 2)


def functions(rng, d):
  """(jax function, numpy function) pairs of plain coordinate functions."""
  import jax.numpy as jnp
  p = ref.random_poly(rng, d, 2, total=True)
  k = rng.uniform(-2, 2, size=d)
  kind = int(rng.integers(0, 3))
  if kind == 0:
    return fe.jax_poly(p), p
  if kind == 1:
    return (lambda x: jnp.sin(jnp.dot(x, k)) + x[-1],
            lambda x: np.sin(x @ k) + x[..., -1])
  return (lambda x: jnp.exp(-jnp.sum(x * x) / 9) * x[0],
          lambda x: np.exp(-np.sum(x * x, axis=-1) / 9) * x[..., 0])


def run_quadrature(case):
  """Against the reference with the same quadrature."""
  import jax.numpy as jnp
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  R = fe.ref_space(s, case['qkind'], case['q'])
  rng = core.rng_of(case)
  jf, nf = functions(rng, s.d)
  u = rng.normal(size=s.N)
  w = rng.normal(size=(s.N, s.d))
  U, W = u[s.el], w[s.el]
  f = V.scalar_function(s.mesh.gather(jnp.asarray(u)))
  g = V.vector_function(jnp.asarray(W))
  nu, nw, nx = R.value(U), R.value(W), nf(R.coords)
  one = np.ones_like(nu)
  a = float(rng.normal())
  todo = [
      ('one', lambda x: jnp.ones(()), one),
      ('coordinate function', jf, nx),
      ('nodal function', f, nu),
      ('product', lambda x: f(x) * jf(x) * f(x), nu * nx * nu),
      ('vector', lambda x: jnp.dot(g(x), x), np.sum(nw * R.coords, axis=-1)),
      ('component', lambda x: g(x)[s.d - 1] * f(x), nw[..., s.d - 1] * nu),
      ('linear combination', lambda x: jf(x) - a * f(x), nx - a * nu),
  ]
  for name, j, n in todo:
    got = V.integrate(j)
    core.check(np.shape(got) == (), 'the integral is a scalar')
    core.close(got, R.integrate(n), f'integral: {name}', rtol=1e-11,
               scale=R.integrate(np.abs(n)) + 1e-12)
  try:
    V.integrate(g)
  except ValueError:
    pass
  else:
    core.check(s.d == 1, 'the integrand has to be a scalar')


def run_exact(case):
  """Polynomials against a much finer quadrature; volume of affine meshes."""
  import jax.numpy as jnp
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  rng = core.rng_of(case)
  g = case['n'] - 1 if case['curved'] is not None else 1
  if case['curved'] is None and case['mesh']['geom']['jitter'] is None and (
      case['mesh']['base']['kind'] == 'grid'):
    jac = 0      # affine elements
  else:
    jac = s.d * g - 1
  deg = {'gl': 2 * case['q'] - 1, 'gll': 2 * case['q'] - 3, 'nc': 1}[
      case['qkind']]
  k = (deg - jac) // max(g, 1)
  if k < 0:
    k = -1
  R = fe.ref_space(s, 'gl', 12 if s.d < 3 else 9)
  if k >= 0:
    c, size = fe.normalise(s.coords)
    p = ref.random_poly(rng, s.d, min(k, 6), total=True)
    jp = fe.jax_poly(p)
    n = p((R.coords - c) / size)
    core.close(V.integrate(lambda x: jp((x - c) / size)), R.integrate(n),
               'integral of a polynomial within the degree of exactness',
               rtol=1e-10, scale=R.integrate(np.abs(n)))
  if jac <= deg:
    core.close(V.integrate(lambda x: jnp.ones(())), R.integrate(
        np.ones(R.det.shape)), 'volume', rtol=1e-11)
    # the volume by the divergence theorem: (1/d) sum of n . x over the boundary
    # equals the sum over elements of the exact integral; in 2D the shoelace
    # formula on straight elements
    if s.d == 2 and case['curved'] is None:
      m = s.m
      area = 0.
      for e in m.elements:
        q = m.coords[e][[0, 2, 3, 1]]
        area += .5 * np.sum(q[:, 0] * np.roll(q[:, 1], -1)
                            - q[:, 1] * np.roll(q[:, 0], -1))
      core.close(V.integrate(lambda x: jnp.ones(())), area, 'area', rtol=1e-10)


def run_relabel(case):
  """The same domain with other numberings and orientations of elements."""
  import jax.numpy as jnp
  rng = core.rng_of(case)
  spec = case['mesh']
  other = dict(case, mesh=dict(
      spec, renum=int(rng.integers(0, 999)), reorder=int(rng.integers(0, 999)),
      reorient=int(rng.integers(0, 999))), renum2=int(rng.integers(0, 999)))
  if case['kind'] == 'gl':
    other['renum2'] = None
  a, b = fe.make(case), fe.make(other)
  Va = fe.space(a, case['qkind'], case['q'])
  Vb = fe.space(b, case['qkind'], case['q'])
  jf, nf = functions(rng, a.d)
  k = rng.uniform(-2, 2, size=a.d)
  fld = lambda x: np.cos(x @ k) + x[..., 0]
  fa = Va.scalar_function(jnp.asarray(fld(a.X)))
  fb = Vb.scalar_function(jnp.asarray(fld(b.X)))
  ia = Va.integrate(lambda x: jf(x) * fa(x) + fa(x) * fa(x))
  ib = Vb.integrate(lambda x: jf(x) * fb(x) + fb(x) * fb(x))
  R = fe.ref_space(a, case['qkind'], case['q'])
  n = np.abs(R.value(fld(a.X)))
  scale = R.integrate(np.abs(nf(R.coords)) * n + n * n)
  core.close(ib, ia, 'integral after relabelling', rtol=1e-11, scale=scale)
  # additive over the elements
  E = len(a.el)
  if E > 1:
    total = 0.
    for e in (0, E - 1, int(rng.integers(0, E))):
      z = np.zeros(a.el.shape)
      z[e] = fld(a.X)[e]
      ze = Va.scalar_function(jnp.asarray(z))
      total = Va.integrate(ze)
      vals = R.value(z)
      core.close(total, R.integrate(vals), 'integral over one element',
                 rtol=1e-11, scale=R.integrate(np.abs(vals)) + 1e-12)


def run_refine(case):
  """Integrals don't change if the mesh is refined."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import FiniteElementSpace
  from swirl_fem.core.mesh_refiner import refine_premesh
  m = gen.build(case['mesh'])
  p = gen.to_premesh(m)
  d = m.ndim
  q = d + 2
  rng = core.rng_of(case)
  c, size = fe.normalise(m.coords)
  poly = ref.random_poly(rng, d, 3, total=True)
  jp = fe.jax_poly(poly)
  f = lambda x: jp((x - c) / size)
  values = []
  for r in (p, refine_premesh(p, gen.nodes1d(case['kind'], case['n']))):
    V = FiniteElementSpace.create(mesh=r.finalize(),
                                  quadrature=gen.quad1d('gl', q))
    values.append(np.array([V.integrate(f),
                            V.integrate(lambda x: jnp.ones(()))]))
  R = ref.Space(m.coords[m.elements], np.array([-1., 1.]), ref.nodes('gl', q),
                ref.weights('gl', q))
  n = poly((R.coords - c) / size)
  expect = np.array([R.integrate(n), R.integrate(np.ones_like(n))])
  scale = max(R.integrate(np.abs(n)), expect[1])
  core.close(values[0], expect, 'integral on the mesh', rtol=1e-11, scale=scale)
  core.close(values[1], expect, 'integral on the refined mesh', rtol=1e-11,
             scale=scale)


def run_units(case):
  """Integrals in other units of length."""
  import jax.numpy as jnp
  a = fe.make(case)
  b = fe.scaled(a, case['exps'][:a.d])
  Va = fe.space(a, case['qkind'], case['q'])
  Vb = fe.space(b, case['qkind'], case['q'])
  R = fe.ref_space(a, case['qkind'], case['q'])
  rng = core.rng_of(case)
  u, w = rng.normal(size=a.el.shape), rng.normal(size=a.el.shape + (a.d,))
  jf, nf = functions(rng, a.d)
  vol = float(np.prod(b.L))
  inv = jnp.asarray(1 / b.L)
  nu, nw, nx = R.value(u), R.value(w), nf(R.coords)
  core.close(Vb.quad_coords, R.coords * b.L, 'coordinates of the points',
             rtol=1e-12, scale=float((np.abs(R.coords).max(axis=(0, 1)) * b.L
                                      ).max()))
  for name, form, vals in [
      ('one', lambda f, g, c: lambda x: jnp.ones(()), np.ones_like(nu)),
      ('nodal functions', lambda f, g, c: lambda x: f(x) * f(x) + f(x),
       nu * nu + nu),
      ('vector', lambda f, g, c: lambda x: g(x)[0] - g(x)[a.d - 1] * f(x),
       nw[..., 0] - nw[..., a.d - 1] * nu),
      ('coordinate', lambda f, g, c: lambda x: c(x) * f(x), nx * nu)]:
    got = [float(V.integrate(form(V.scalar_function(jnp.asarray(u)),
                                  V.vector_function(jnp.asarray(w)), c)))
           for V, c in ((Va, jf), (Vb, lambda x: jf(x * inv)))]
    scale = R.integrate(np.abs(vals)) + 1e-12
    core.close(got[0], R.integrate(vals), f'integral: {name}', rtol=1e-11,
               scale=scale)
    core.close(got[1] / vol, got[0], f'integral in other units: {name}',
               rtol=1e-11, scale=scale)


def sub(run, rule):
  return core.Sub(fe.case(SHAPES), run, fe.labels, fe.nontrivial, rule)


SUBS = {
    'quadrature': sub(run_quadrature, 'all kinds of integrands'),
    'exact': sub(run_exact, 'polynomials within the degree of exactness'),
    'relabel': sub(run_relabel, 'relabelled meshes; single elements'),
    'units': core.Sub(fe.case(SHAPES, exps=fe.units(3)), run_units, fe.labels,
                      lambda c: c['exps'] != [0] * 3,
                      'meshes scaled by powers of two, per axis'),
    'refine': core.Sub(
        st.fixed_dictionaries({
            'mesh': strat.topo_mesh(strat.shard_subset(
                ['line4', 'quad2x2', 'quadO', 'tri2', 'hex2', 'tet4', 'hexL'],
                1)),
            'kind': st.sampled_from(['nc', 'gll', 'gl']),
            'n': st.integers(2, 3), 'seed': strat.seeds}),
        run_refine, lambda c: strat.mesh_labels(c['mesh']), fe.nontrivial,
        'refined meshes'),
}
