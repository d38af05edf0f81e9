"""Independent numpy reference for tensor-product finite elements.

Nothing here imports the code under test. Formulas are the textbook ones
(product form of the Lagrange basis, dense tensor products by einsum), chosen to
be different from the ones used in the code under test.
"""

from fractions import Fraction
import functools
import itertools

import numpy as np
from numpy.polynomial import legendre as L


# ---------------------------------------------------------------------------
# 1D nodes and weights. Kinds: 'nc', 'gl', 'gll'.
# ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def nodes(kind, n):
  """Strictly increasing nodes on [-1, 1]."""
  if kind == 'nc':
    return np.array([-1. + 2. * i / (n - 1) for i in range(n)])
  if kind == 'gl':
    return _legendre_roots(n, deriv=0)
  if kind == 'gll':
    if n == 2:
      return np.array([-1., 1.])
    return np.concatenate([[-1.], _legendre_roots(n - 1, deriv=1), [1.]])
  raise ValueError(kind)


def _legendre_roots(n, deriv):
  """Roots of the deriv-th derivative of the Legendre polynomial P_n."""
  c = np.zeros(n + 1)
  c[n] = 1
  c = L.legder(c, deriv) if deriv else c
  dc = L.legder(c)
  # The roots of the derivative interlace with Chebyshev-like guesses; bracket
  # by a fine scan and bisect, then polish with Newton steps.
  t = np.cos(np.linspace(np.pi, 0, 40 * (n + 2) + 7))
  v = L.legval(t, c)
  roots = []
  for a, b, fa, fb in zip(t[:-1], t[1:], v[:-1], v[1:]):
    if fa == 0:
      roots.append(a)
      continue
    if fa * fb < 0:
      for _ in range(80):
        m = .5 * (a + b)
        fm = L.legval(m, c)
        if fa * fm <= 0:
          b = m
        else:
          a, fa = m, fm
      x = .5 * (a + b)
      for _ in range(2):
        x = x - L.legval(x, c) / L.legval(x, dc)
      roots.append(x)
  roots = np.array(roots)
  assert len(roots) == n - deriv, (n, deriv, len(roots))
  return np.sort(.5 * (roots - roots[::-1]))


@functools.lru_cache(maxsize=None)
def weights(kind, n):
  """Quadrature weights for `nodes(kind, n)`."""
  x = nodes(kind, n)
  if kind == 'nc':
    h = 2. / (n - 1)
    w = np.full(n, h)
    w[0] = w[-1] = h / 2
    return w
  c = np.zeros(n + 1)
  if kind == 'gl':
    c[n] = 1
    return 2 / ((1 - x ** 2) * L.legval(x, L.legder(c)) ** 2)
  c = np.zeros(n)
  c[n - 1] = 1
  return 2 / (n * (n - 1) * L.legval(x, c) ** 2)


# ---------------------------------------------------------------------------
# Lagrange bases by products.
# ---------------------------------------------------------------------------


def lagrange(x, t):
  """Matrix l_j(t_i) of the Lagrange polynomials at nodes x."""
  x, t = np.asarray(x, float), np.asarray(t, float)
  out = np.ones((len(t), len(x)))
  for j in range(len(x)):
    for k in range(len(x)):
      if k != j:
        out[:, j] *= (t - x[k]) / (x[j] - x[k])
  return out


def lagrange_deriv(x, t):
  """Matrix l_j'(t_i)."""
  x, t = np.asarray(x, float), np.asarray(t, float)
  out = np.zeros((len(t), len(x)))
  for j in range(len(x)):
    for m in range(len(x)):
      if m == j:
        continue
      p = np.full(len(t), 1. / (x[j] - x[m]))
      for k in range(len(x)):
        if k not in (j, m):
          p = p * (t - x[k]) / (x[j] - x[k])
      out[:, j] += p
  return out


def tensor(mats, u, axis):
  """Applies mats[k] to the kth tensor axis of axis `axis` of u."""
  u = np.moveaxis(np.asarray(u), axis, -1)
  lead = u.shape[:-1]
  u = u.reshape(lead + tuple(m.shape[1] for m in mats))
  for k, m in enumerate(mats):
    ax = len(lead) + k
    u = np.moveaxis(np.tensordot(m, u, axes=(1, ax)), 0, ax)
  u = u.reshape(lead + (-1,))
  return np.moveaxis(u, -1, axis)


def grid(xs, ndim):
  """Tensor grid of points, last axis fastest; shape (n^d, d)."""
  return np.array(list(itertools.product(xs, repeat=ndim))).reshape(-1, ndim)


def weights_nd(w, ndim):
  return np.array([np.prod(p) for p in itertools.product(w, repeat=ndim)])


class Space:
  """Nodal functions on elements with given node coordinates, at quadrature.

  elem_coords: (E, n^d, d) coordinates of the element nodes at reference nodes x.
  """

  def __init__(self, elem_coords, x, xq, wq):
    self.X = np.asarray(elem_coords, float)
    self.d = self.X.shape[-1]
    self.x, self.xq, self.wq = x, xq, wq
    self.I = lagrange(x, xq)
    self.D = lagrange_deriv(x, xq)
    self.coords = self.value(self.X)                       # (E, Q, d)
    self.J = self.ref_grad(self.X)                         # (E, Q, i, comp)
    self.det = np.linalg.det(self.J)
    self.w = weights_nd(wq, self.d)

  def value(self, u):
    """Values at the quadrature points; u: (E, n^d, ...)."""
    return tensor([self.I] * self.d, u, 1)

  def ref_grad(self, u):
    """Derivatives along the reference axes; (E, Q, axis, ...)."""
    parts = []
    for k in range(self.d):
      parts.append(tensor([self.D if i == k else self.I
                           for i in range(self.d)], u, 1))
    return np.stack(parts, axis=2)

  def grad(self, u):
    """Physical gradient; (E, Q, axis, ...): entry i is the derivative in x_i."""
    g = self.ref_grad(u)
    # g_ref[a] = sum_i J[a, i] g_phys[i]
    shape = g.shape
    sol = np.linalg.solve(self.J, g.reshape(shape[:3] + (-1,)))
    return sol.reshape(shape)

  def integrate(self, values):
    """Integral of values (E, Q)."""
    return float(np.sum(values * self.det * self.w))

  def integrate_elements(self, values):
    return np.sum(values * self.det * self.w, axis=1)


def gather(u, elements):
  return np.asarray(u)[elements]


def scatter(u_local, elements, num_nodes):
  u_local = np.asarray(u_local)
  out = np.zeros((num_nodes,) + u_local.shape[2:], dtype=u_local.dtype)
  np.add.at(out, elements, u_local)
  return out


# ---------------------------------------------------------------------------
# Union-find for periodic identification.
# ---------------------------------------------------------------------------


def classes(n, pairs):
  """Representative of each of n nodes under the equivalence closure."""
  parent = list(range(n))

  def find(i):
    while parent[i] != i:
      parent[i] = parent[parent[i]]
      i = parent[i]
    return i

  for a, b in pairs:
    ra, rb = find(int(a)), find(int(b))
    if ra != rb:
      parent[max(ra, rb)] = min(ra, rb)
  return np.array([find(i) for i in range(n)])


def exchange(u, cls):
  u = np.asarray(u)
  s = np.zeros_like(u)
  np.add.at(s, cls, u)
  return s[cls]


# ---------------------------------------------------------------------------
# Refinement reference.
# ---------------------------------------------------------------------------


def refined_coords(coords, elements, x):
  """(E, n^d, d): images of the reference nodes under the multilinear maps."""
  d = coords.shape[1]
  X = coords[elements]
  return tensor([lagrange(np.array([-1., 1.]), x)] * d, X, 1)


def signatures(facets, ndim, n):
  """Symbolic positions of the refined nodes of the facets.

  For each facet (of dimension `ndim`) and each position in tensor order, the
  frozenset of (vertex, weight), where the weights are those of the multilinear
  combination for positions i / (n - 1), as exact fractions. It doesn't depend on the
  orientation of the facet, and two nodes on conforming facets have the same
  signature exactly if they're at the same position of a shared subfacet.
  """
  out = []
  pos = list(itertools.product(range(n), repeat=ndim))
  corners = list(itertools.product((0, 1), repeat=ndim))
  for f in facets:
    row = []
    for p in pos:
      acc = {}
      for v, c in zip(f, corners):
        w = 1
        for pi, ci in zip(p, c):
          w *= pi if ci else (n - 1 - pi)
        if w:
          acc[int(v)] = acc.get(int(v), 0) + w
      row.append(frozenset(
          (v, Fraction(w, (n - 1) ** ndim)) for v, w in acc.items()))
    out.append(row)
  return out


def monomials(deg, ndim):
  return list(itertools.product(range(deg + 1), repeat=ndim))


class Poly:
  """Polynomial sum_k c_k prod_i x_i^{e_ki}; vectorised over points."""

  def __init__(self, exps, coefs):
    self.exps = [tuple(e) for e in exps]
    self.coefs = np.asarray(coefs, float)

  def __call__(self, x):
    x = np.asarray(x)
    out = np.zeros(x.shape[:-1])
    for e, c in zip(self.exps, self.coefs):
      t = np.full(x.shape[:-1], c)
      for i, k in enumerate(e):
        if k:
          t = t * x[..., i] ** k
      out = out + t
    return out

  def diff(self, axis):
    exps, coefs = [], []
    for e, c in zip(self.exps, self.coefs):
      if e[axis]:
        e2 = list(e)
        e2[axis] -= 1
        exps.append(tuple(e2))
        coefs.append(c * e[axis])
    if not exps:
      exps, coefs = [(0,) * len(self.exps[0])], [0.]
    return Poly(exps, coefs)

  def grad(self, x):
    d = len(self.exps[0])
    return np.stack([self.diff(i)(x) for i in range(d)], axis=-1)

  def magnitude(self, x):
    """Sum of the absolute values of the terms; a scale for rounding errors."""
    x = np.abs(np.asarray(x))
    return float(np.max(Poly(self.exps, np.abs(self.coefs))(x)))


def random_poly(rng, ndim, deg, total=False, terms=6):
  """Random polynomial of per-axis (or total) degree at most deg."""
  exps = {tuple([0] * ndim)}
  corner = tuple([deg] * ndim) if not total else None
  if corner:
    exps.add(corner)
  for _ in range(terms):
    if total:
      e = []
      left = deg
      for _ in range(ndim):
        k = int(rng.integers(0, left + 1))
        e.append(k)
        left -= k
      e = [e[i] for i in rng.permutation(ndim)]
    else:
      e = rng.integers(0, deg + 1, size=ndim).tolist()
    exps.add(tuple(e))
  exps = sorted(exps)
  return Poly(exps, rng.uniform(-1, 1, size=len(exps)) + .2)


def refined_coords_facets(coords, facets, x):
  """Images of the reference nodes under the maps of facets (F, n^(d-1), d)."""
  d = coords.shape[1]
  X = coords[np.asarray(facets)]
  if d == 1:
    return X
  return tensor([lagrange(np.array([-1., 1.]), x)] * (d - 1), X, 1)
