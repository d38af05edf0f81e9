"""P01: interpolation reproduces polynomials and their gradients exactly."""

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if the grid has at least 2 points and differs '
        'from the evaluation points (so that the interpolation matrix is not '
        'the identity).')
PLAN = [
    {'subs': {'poly': (700, 8000), 'linear': (300, 4000)},
     'shards': (3, 8), 'env': {}},
    {'subs': {'apply': (60, 600)}, 'shards': (1, 4), 'env': {}},
]
ASSUMPTIONS = [
    'Evaluation points lie in [-1, 1] or moderately outside of it; a distance '
    'to a grid point is 0 or at least 1e-200 (below the floating point '
    'division overflows).',
    'Equispaced grids have at most 16 points, the others at most 30 (2 dimensions: 9, 3 '
    'dimensions: 5), and tolerances scale with the condition number of the '
    'interpolation.',
]

GRID = st.one_of(
    st.tuples(st.just('nc'), st.integers(2, 16)),
    st.tuples(st.just('gl'), st.integers(1, 30)),
    st.tuples(st.just('gll'), st.integers(2, 30))).map(list)


@st.composite
def points(draw, grid):
  """Evaluation points: a node family, or a single point."""
  how = draw(st.sampled_from(['family', 'family', 'single', 'at', 'near']))
  if how == 'family':
    return ['family'] + draw(GRID)
  if how == 'single':
    return ['single', draw(st.floats(-1.5, 1.5, allow_subnormal=False))]
  i = draw(st.integers(0, grid[1] - 1))
  if how == 'at':
    return ['at', i]
  return ['near', i, draw(st.sampled_from([1, -1])),
          draw(st.sampled_from([0, 1, 3, 1e2, 1e6, 1e10]))]


@st.composite
def case(draw):
  grid = draw(GRID)
  c = {'grid': grid, 'eval': draw(points(grid)),
       'ndim': draw(st.integers(1, 3)), 'seed': draw(strat.seeds)}
  cap = {1: 30, 2: 9, 3: 5}[c['ndim']]
  c['grid'][1] = min(c['grid'][1], cap)
  if c['eval'][0] == 'family':
    c['eval'][2] = min(c['eval'][2], cap)
  elif c['eval'][0] in ('at', 'near'):
    c['eval'][1] %= c['grid'][1]
  return c


def setup(case):
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D
  kind, n = case['grid']
  g = gen.nodes1d(kind, n)
  x = np.asarray(g.node_values)
  ev = case['eval']
  if ev[0] == 'family':
    e = gen.nodes1d(ev[1], ev[2])
    t = np.asarray(e.node_values)
  else:
    if ev[0] == 'single':
      v = ev[1]
      near = x[np.argmin(np.abs(x - v))]
      if 0 < abs(v - near) < 1e-200:
        v = near
    elif ev[0] == 'at':
      v = x[ev[1]]
    else:
      v = x[ev[1]]
      if ev[3] == 0:
        v = np.nextafter(v, 2 * ev[2])
        v = v if abs(v) > 1e-200 else 1e-200 * ev[2]
      else:
        v = v + ev[2] * ev[3] * 2.3e-16
    e = Nodes1D.create_single_point(node_value=np.array(v, dtype=np.float64))
    t = np.array([v])
  return BarycentricInterpolator(ndim=case['ndim'], gridpoints_1d=g,
                                 evalpoints_1d=e), x, t


def cond(x, t):
  """Lebesgue constants of values and derivatives (1D)."""
  l = np.abs(ref.lagrange(x, t)).sum(axis=1).max()
  dl = np.abs(ref.lagrange_deriv(x, t)).sum(axis=1).max() if len(x) > 1 else 0.
  dn = np.abs(ref.lagrange_deriv(x, x)).sum(axis=1).max() if len(x) > 1 else 0.
  return l, dl, dn


def run_poly(case):
  interp, x, t = setup(case)
  d, n = case['ndim'], len(x)
  rng = core.rng_of(case)
  p = ref.random_poly(rng, d, n - 1)
  X, T = ref.grid(x, d), ref.grid(t, d)
  u = p(X)
  l, dl, dn = cond(x, t)
  scale = max(np.abs(u).max(), p.magnitude(T), p.magnitude(X))
  M = np.asarray(interp.interpolation_matrix())
  core.check(M.shape == (len(T), len(X)), 'shape of the interpolation matrix',
             shape=M.shape)
  tol = 2e-15 * (n + 4) ** 2
  core.close(M @ u, p(T), 'interpolated values of a polynomial', rtol=0,
             atol=tol * scale * l ** (d + 1))
  G = np.asarray(interp.interpolation_matrix_grad())
  core.check(G.shape == (len(T), len(X), d), 'shape of the gradient matrix',
             shape=G.shape)
  got = np.einsum('qnd,n->qd', G, u)
  # rounding: differentiation at the nodes, then interpolation
  core.close(got, p.grad(T), 'interpolated gradient of a polynomial', rtol=0,
             atol=tol * scale * l ** d * max(dl, l * dn, 1.))


def run_linear(case):
  interp, x, t = setup(case)
  d, n = case['ndim'], len(x)
  M = np.asarray(interp.interpolation_matrix())
  G = np.asarray(interp.interpolation_matrix_grad())
  l, dl, dn = cond(x, t)
  # constants
  core.close(M.sum(axis=1), np.ones(len(M)), 'constants are reproduced', rtol=0,
             atol=1e-13 * n * l ** d)
  core.close(G.sum(axis=1), np.zeros((len(M), d)), 'gradient of constants',
             rtol=0, atol=1e-13 * n * n * (1 + l * dn) * l ** d)
  # values at grid points are unchanged, exactly
  rng = core.rng_of(case)
  u = rng.normal(size=n ** d)
  hits = [(q, i) for q, tq in enumerate(t) for i, xi in enumerate(x)
          if tq == xi]
  if hits:
    N1 = np.arange(n ** d).reshape([n] * d)
    Q1 = np.arange(len(t) ** d).reshape([len(t)] * d)
    for q, i in hits:
      q2, i2 = hits[rng.integers(0, len(hits))]
      qi = Q1[tuple([q] + [q2] * (d - 1))]
      ni = N1[tuple([i] + [i2] * (d - 1))]
      row = np.zeros(n ** d)
      row[ni] = 1
      core.close(M[qi], row, 'row at a grid point', rtol=0, atol=1e-14)
  # matrix against the product-form reference
  core.close(M, _kron([ref.lagrange(x, t)] * d), 'interpolation matrix',
             rtol=0, atol=1e-13 * n * n * l ** (d + 1))


def _kron(ms):
  out = np.ones((1, 1))
  for m in ms:
    out = np.einsum('ab,cd->acbd', out, m).reshape(
        out.shape[0] * m.shape[0], out.shape[1] * m.shape[1])
  return out


def run_apply(case):
  """The function form agrees with the matrices; it's linear in the values."""
  import jax.numpy as jnp
  interp, x, t = setup(case)
  d = case['ndim']
  rng = core.rng_of(case)
  u = rng.normal(size=len(x) ** d)
  v = rng.normal(size=len(x) ** d)
  a = float(rng.normal())
  M = np.asarray(interp.interpolation_matrix())
  G = np.asarray(interp.interpolation_matrix_grad())
  s = np.abs(M).sum(axis=1).max()
  sg = np.abs(G).sum(axis=1).max()
  f = lambda w: np.asarray(interp.interpolate(jnp.asarray(w)))
  g = lambda w: np.asarray(interp.interpolate_grad(jnp.asarray(w)))
  core.close(f(u), M @ u, 'interpolate', rtol=0, atol=1e-12 * (1 + s))
  core.close(g(u), np.einsum('qnd,n->qd', G, u), 'interpolate_grad', rtol=0,
             atol=1e-12 * (1 + sg))
  core.close(f(u + a * v), f(u) + a * f(v), 'linearity', rtol=0,
             atol=1e-12 * (1 + s) * (1 + abs(a)))


def labels(case):
  return [f"ndim={case['ndim']}", f"grid={case['grid'][0]}",
          f"eval={case['eval'][0]}"]


def nontrivial(case):
  return case['grid'][1] >= 2 and case['eval'][1:] != case['grid']


@st.composite
def small_case(draw):
  """Few shapes, as each is compiled."""
  c = draw(case())
  c['ndim'] = min(c['ndim'], 2)
  c['grid'][1] = max(2, c['grid'][1] % 5)
  if c['eval'][0] == 'family':
    c['eval'][2] = max(2, c['eval'][2] % 5)
  elif c['eval'][0] in ('at', 'near'):
    c['eval'][1] %= c['grid'][1]
  return c


SUBS = {
    'poly': core.Sub(case(), run_poly, labels, nontrivial,
                     'values and gradients of random polynomials'),
    'linear': core.Sub(case(), run_linear, labels, nontrivial,
                       'constants, grid points, product-form reference'),
    'apply': core.Sub(small_case(), run_apply, labels, nontrivial,
                      'function form against the matrices'),
}
