"""P09: gradient and divergence of nodal functions are exact."""

import numpy as np
from hypothesis import strategies as st

from vf import core, fe, gen, ref, strat

RULE = ('A case is non-trivial if the mesh is relabelled, deformed or curved.')
PLAN = [
    {'subs': {'nodal': (60, 800), 'exact': (50, 600), 'plain': (20, 200), 'units': (20, 250)},
     'shards': (8, 16), 'env': {}},
    {'subs': {'nodal': (10, 120), 'exact': (8, 90), 'units': (5, 60)},
     'shards': (5, 10), 'env': {}, 'tag': 'big'},
]
ASSUMPTIONS = [
    'Elements with positive Jacobian determinant; double precision; tolerances '
    'scale with the condition number of the Jacobians.']
SHAPES = strat.big_or(fe.SHAPES, 3, fe.BIG, 2)


def at_quadrature(V, f):
  import jax
  return np.asarray(jax.vmap(jax.vmap(f))(V.quad_coords))


def condition(R):
  return float(np.linalg.cond(R.J).max())


def run_nodal(case):
  """Random nodal values, against the reference."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  R = fe.ref_space(s, case['qkind'], case['q'])
  core.close(V.quad_coords, R.coords, 'coordinates of the quadrature points',
             rtol=1e-12, scale=np.abs(R.coords).max() + 1)
  rng = core.rng_of(case)
  u = rng.normal(size=s.N)
  w = rng.normal(size=(s.N, s.d))
  f = V.scalar_function(s.mesh.gather(jnp.asarray(u)))
  g = V.vector_function(jnp.asarray(w[s.el]))
  gu, gw = R.grad(u[s.el]), R.grad(w[s.el])
  tol = 1e-12 * condition(R) * case['n'] ** 2
  core.close(at_quadrature(V, f), R.value(u[s.el]), 'values', rtol=tol)
  core.close(at_quadrature(V, g), R.value(w[s.el]), 'vector values', rtol=tol)
  core.close(at_quadrature(V, grad(f)), gu, 'gradient of a scalar', rtol=tol)
  core.close(at_quadrature(V, grad(g)), gw, 'gradient of a vector', rtol=tol)
  core.close(at_quadrature(V, div(g)), np.einsum('eqii->eq', gw), 'divergence',
             rtol=tol, scale=np.abs(gw).max())
  # used inside of an integral, with a weight which tells apart the entries
  K = rng.normal(size=(s.d, s.d))
  k = rng.normal(size=s.d)
  got = V.integrate(lambda x: jnp.sum(K * grad(g)(x)) + jnp.dot(
      grad(f)(x), k) * f(x))
  vals = np.einsum('ij,eqij->eq', K, gw) + (gu @ k) * R.value(u[s.el])
  core.close(got, R.integrate(vals), 'integral of gradients', rtol=tol,
             scale=R.integrate(np.abs(vals)))


def run_exact(case):
  """Functions in the space have their exact gradient in physical space."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  s = fe.make(case)
  d = s.d
  V = fe.space(s, case['qkind'], case['q'])
  R = fe.ref_space(s, case['qkind'], case['q'])
  rng = core.rng_of(case)
  affine = (case['curved'] is None and case['mesh']['geom']['jitter'] is None
            and case['mesh']['base']['kind'] == 'grid')
  n = case['n']
  if affine:
    deg = n - 1          # of total degree: in the space on affine elements
  elif case['curved'] is None:
    deg = (n - 1)        # multilinear elements: p(F(r)) has degree deg per axis
  else:
    deg = 1              # isoparametric: coordinates are in the space
  c, size = fe.normalise(s.coords)
  p = ref.random_poly(rng, d, deg, total=True)
  ps = [ref.random_poly(rng, d, deg, total=True) for _ in range(d)]
  T = (s.X - c) / size
  Q = (R.coords - c) / size
  f = V.scalar_function(jnp.asarray(p(T)))
  g = V.vector_function(jnp.asarray(np.stack([q(T) for q in ps], axis=-1)))
  tol = 1e-11 * condition(R) * n ** 2
  gf = p.grad(Q) / size
  # entry (i, j): derivative along axis i of component j
  gg = np.stack([q.grad(Q) for q in ps], axis=-1) / size
  h = np.abs(R.det).min() ** (1 / d)
  sc = max(np.abs(gf).max(), np.abs(gg).max(), 1 / h)
  core.close(at_quadrature(V, grad(f)), gf, 'gradient of a polynomial',
             rtol=tol, scale=sc)
  core.close(at_quadrature(V, grad(g)), gg, 'gradient of a vector field',
             rtol=tol, scale=sc)
  core.close(at_quadrature(V, div(g)), np.einsum('eqii->eq', gg),
             'divergence of a vector field', rtol=tol, scale=sc)


def run_plain(case):
  """Gradients of plain functions of the coordinate."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  R = fe.ref_space(s, case['qkind'], case['q'])
  rng = core.rng_of(case)
  p = ref.random_poly(rng, s.d, 3, total=True)
  jp = fe.jax_poly(p)
  core.close(at_quadrature(V, grad(jp)), p.grad(R.coords),
             'gradient of a plain function', rtol=1e-11,
             scale=max(ref.Poly(q.exps, np.abs(q.coefs)).magnitude(R.coords)
                       for q in [p.diff(i) for i in range(s.d)]) + 1e-9)
  # vector-valued plain functions
  ps = [ref.random_poly(rng, s.d, 2, total=True) for _ in range(s.d)]
  jps = [fe.jax_poly(q) for q in ps]
  jv = lambda x: jnp.stack([q(x) for q in jps])
  gg = np.stack([q.grad(R.coords) for q in ps], axis=-1)
  size = np.abs(R.coords).max() + 1
  core.close(at_quadrature(V, grad(jv)), gg, 'gradient of a plain vector field',
             rtol=1e-11, scale=size ** 2)
  core.close(at_quadrature(V, div(jv)), np.einsum('eqii->eq', gg),
             'divergence of a plain vector field', rtol=1e-11, scale=size ** 2)
  # a product of a plain and of a nodal function
  u = rng.normal(size=s.el.shape)
  f = V.scalar_function(jnp.asarray(u))
  got = V.integrate(lambda x: jnp.dot(grad(f)(x), grad(jp)(x)) * jp(x))
  vals = np.sum(R.grad(u) * p.grad(R.coords), axis=-1) * p(R.coords)
  core.close(got, R.integrate(vals), 'integral of a mixed product', rtol=1e-10
             * condition(R), scale=R.integrate(np.abs(vals)) + 1e-9)


def run_units(case):
  """Gradients and divergences in other units of length."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  a = fe.make(case)
  d = a.d
  b = fe.scaled(a, case['exps'][:d])
  V = fe.space(b, case['qkind'], case['q'])
  R = fe.ref_space(a, case['qkind'], case['q'])
  rng = core.rng_of(case)
  u, w = rng.normal(size=a.el.shape), rng.normal(size=a.el.shape + (d,))
  f, g = V.scalar_function(jnp.asarray(u)), V.vector_function(jnp.asarray(w))
  # lengths of order one are the reference; the ratio of the axes is bounded
  tol = (1e-12 * condition(R) * case['n'] ** 2
         * float(b.L.max() / b.L.min()))
  gu, gw = R.grad(u), R.grad(w)
  got = at_quadrature(V, grad(f)) * b.L
  core.close(got, gu, 'gradient of a scalar in other units', rtol=tol)
  got = at_quadrature(V, grad(g)) * b.L[:, None]
  core.close(got, gw, 'gradient of a vector in other units', rtol=tol)
  # the components measured in the units of their axes
  h = V.vector_function(jnp.asarray(w * b.L))
  core.close(at_quadrature(V, div(h)), np.einsum('eqii->eq', gw),
             'divergence in other units', rtol=tol, scale=np.abs(gw).max())
  vals = np.sum(gu * gu, axis=-1)
  L = jnp.asarray(b.L)
  got = V.integrate(lambda x: jnp.sum((grad(f)(x) * L) ** 2))
  core.close(float(got) / float(np.prod(b.L)), R.integrate(vals),
             'energy in other units', rtol=2 * tol)


def sub(run, rule):
  return core.Sub(fe.case(SHAPES), run, fe.labels, fe.nontrivial, rule)


SUBS = {
    'nodal': sub(run_nodal, 'random nodal functions against the reference'),
    'exact': sub(run_exact, 'polynomials in the space'),
    'units': core.Sub(fe.case(SHAPES, exps=fe.units(3)), run_units, fe.labels,
                      lambda c: c['exps'] != [0] * 3,
                      'meshes scaled by powers of two, per axis'),
    'plain': sub(run_plain, 'plain functions of the coordinate'),
}
