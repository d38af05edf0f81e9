"""P18: conjugate gradients solve symmetric positive definite systems."""

import copy
import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, strat

RULE = ('A case is non-trivial if the solver makes at least two iterations on '
        'a system of at least three unknowns.')
PLAN = [
    {'subs': {'iterates': (110, 1500), 'tolerance': (140, 2000),
              'special': (20, 200)}, 'shards': (6, 12), 'env': {}},
    {'subs': {'tolerance': (60, 600)}, 'shards': (2, 3),
     'env': {'x64': False}, 'tag': 'x32'},
    {'subs': {'iterates': (30, 300), 'tolerance': (40, 400)}, 'shards': (2, 4),
     'env': {}, 'tag': 'big'},
]
ASSUMPTIONS = [
    'Spectra with condition numbers up to 1e4 (1e2 for comparisons of '
    'iterates). The operator is self-adjoint in the given inner product, and '
    'so is the preconditioner.',
    'The stopping test is the documented one: r.Mr <= max(tol^2 b.b, atol^2).']
SIZES = strat.big_or([1, 2, 3, 4, 5, 6, 8, 10, 12, 16], 3,
                     [40, 130, 300, 600], 2)


@st.composite
def case(draw, iterates=False):
  n = draw(st.sampled_from(SIZES))
  return {'n': n,
          'spectrum': draw(st.sampled_from(
              ['spread', 'spread', 'clusters', 'identity', 'two'])),
          'cond': draw(st.sampled_from([2., 10., 100.] + (
              [] if iterates else [1e4]))),
          'scale': draw(st.sampled_from([1., 1., 1e-3, 1e4])),
          'pre': draw(st.sampled_from(['none', 'none', 'diagonal', 'spd',
                                       'inverse'])),
          'dot': draw(st.sampled_from(['vdot', 'vdot', 'weighted'])),
          'dotscale': draw(st.sampled_from([1., 1e-4, 1e4])),
          'tree': draw(st.sampled_from(['array', 'matrix', 'dict', 'nested'])),
          'guess': draw(st.sampled_from(['none', 'random', 'near', 'exact'])),
          'tol': draw(st.sampled_from([1e-10, 1e-8, 1e-5, 1e-2, .3])),
          'atol': draw(st.sampled_from([0., 0., 0., 1e-6, 1e-3, 1.])),
          'limit': draw(st.sampled_from([None, None, 0, 1, 2, 5])),
          # tolerances just below the residual of an iterate
          'tight': draw(st.sampled_from([None, None, 'tol', 'atol', 'equal'])),
          'defaults': draw(st.booleans()),
          'jit': draw(st.booleans()), 'k': draw(st.integers(1, 5)),
          'seed': draw(strat.seeds)}


class Problem:
  """Dense data: A self-adjoint and M self-adjoint in the dot of weights w."""

  def __init__(self, case, dtype):
    rng = core.rng_of(case)
    n = case['n']
    self.n, self.dtype = n, dtype
    c = case['cond']
    how = case['spectrum']
    if how == 'spread':
      lam = np.exp(rng.uniform(0, np.log(c), size=n))
    elif how == 'clusters':
      lam = np.array([1., np.sqrt(c), c])[rng.integers(0, 3, size=n)]
    elif how == 'two':
      lam = np.where(rng.random(n) < .5, 1., c)
    else:
      lam = np.full(n, c)
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    S = (q * lam) @ q.T * case['scale']
    self.lam = lam * case['scale']
    self.w = (np.exp(rng.uniform(-1, 1, size=n)) * case['dotscale']
              if case['dot'] == 'weighted' else np.ones(n))
    # self-adjoint w.r.t. (u, v) = sum w u v, with eigenvalues lam
    r = np.sqrt(self.w)
    self.A = S / r[:, None] * r[None, :]
    pre = case['pre']
    if pre == 'none':
      self.M = np.eye(n)
    elif pre == 'diagonal':
      self.M = np.diag(np.exp(rng.uniform(-1, 1, size=n)))
    elif pre == 'spd':
      q2, _ = np.linalg.qr(rng.normal(size=(n, n)))
      P = (q2 * np.exp(rng.uniform(-1, 1, size=n))) @ q2.T
      self.M = P / r[:, None] * r[None, :]
    else:
      self.M = np.linalg.inv(self.A)
    self.b = rng.normal(size=n)
    self.sol = np.linalg.solve(self.A, self.b)
    g = case['guess']
    self.x0 = {'none': np.zeros(n), 'random': rng.normal(size=n),
               'near': self.sol * (1 + 1e-3 * rng.normal(size=n)),
               'exact': self.sol}[g]

  def dot(self, u, v):
    return float(np.sum(self.w * u * v))

  def gamma(self, x):
    r = self.b - self.A @ x
    return self.dot(r, self.M @ r)

  def energy(self, x):
    e = x - self.sol
    return self.dot(e, self.A @ e)

  def best(self, k):
    """Minimiser of the energy norm over x0 + K_k(MA, M r0)."""
    r0 = self.M @ (self.b - self.A @ self.x0)
    B = self.M @ self.A
    V = []
    v = r0
    for _ in range(min(k, self.n)):
      for _ in range(2):
        for u in V:
          v = v - self.dot(u, self.A @ v) * u
      nv = np.sqrt(max(self.dot(v, self.A @ v), 0))
      if nv < 1e-9 * np.sqrt(max(self.dot(r0, self.A @ r0), 1e-300)):
        break
      V.append(v / nv)
      v = B @ V[-1]
    e0 = self.x0 - self.sol
    return self.x0 - sum((self.dot(u, self.A @ e0) * u for u in V),
                         np.zeros(self.n))

  def perturbed(self, eps, j):
    rng = np.random.default_rng(j)
    q = copy.copy(self)
    q.A = self.A * (1 + eps * rng.normal(size=self.A.shape))
    q.M = self.M * (1 + eps * rng.normal(size=self.A.shape))
    return q

  def baseline(self, tol, atol, maxiter):
    """The textbook recurrence."""
    x = self.x0.copy()
    r = self.b - self.A @ x
    z = self.M @ r
    p, g, k = z, self.dot(r, z), 0
    lim = max(tol ** 2 * self.dot(self.b, self.b), atol ** 2)
    while g > lim and g > 0 and k < maxiter:
      Ap = self.A @ p
      a = g / self.dot(p, Ap)
      x, r = x + a * p, r - a * Ap
      z = self.M @ r
      g, old = self.dot(r, z), g
      p = z + g / old * p
      k += 1
    return x, g, k


def split(kind, n):
  """Shapes of the leaves of the tree."""
  if kind == 'array':
    return [(n,)]
  if kind == 'matrix':
    return [(2, n // 2)] if n % 2 == 0 else [(n, 1)]
  if kind == 'dict':
    return [(n // 2,), (n - n // 2,)] if n > 1 else [(n,)]
  return [(1,), (n - 1, 1)] if n > 1 else [(n,)]


def pack(kind, v, xp):
  out, i = [], 0
  n = v.shape[0]
  for s in split(kind, n):
    size = int(np.prod(s))
    out.append(xp.reshape(v[i:i + size], s))
    i += size
  if kind in ('array', 'matrix'):
    return out[0]
  if kind == 'dict':
    return dict(zip('xy', out))
  return [out[0], (out[1:], {})]


def flat(tree, xp):
  import jax
  return xp.concatenate([xp.reshape(l, (-1,))
                         for l in jax.tree_util.tree_leaves(tree)])


@functools.lru_cache(maxsize=None)
def solver(kind, n, weighted, has_m, has_x0, opts, jit):
  """Function of dense arrays which calls the solver on trees."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  opts = dict(opts)

  def f(A, M, w, b, x0):
    kw = dict(opts)
    if has_m:
      kw['M'] = lambda t: pack(kind, M @ flat(t, jnp), jnp)
    if weighted:
      # the weights are found by the size of the leaf
      shapes = split(kind, n)
      offs = np.cumsum([0] + [int(np.prod(s)) for s in shapes])
      sizes = [int(np.prod(s)) for s in shapes]
      assert len(set(sizes)) == len(sizes) or len(sizes) == 1
      def dot(u, v):
        i = sizes.index(u.size)
        return jnp.sum(w[offs[i]:offs[i + 1]].reshape(u.shape) * u * v)
      kw['dot_fn'] = dot
    args = (pack(kind, x0, jnp),) if has_x0 else ()
    x, info = cg(lambda t: pack(kind, A @ flat(t, jnp), jnp),
                 pack(kind, b, jnp), *args, **kw)
    return x, info
  return jax.jit(f) if jit else f


def call(case, p, **opts):
  import jax
  kind = case['tree']
  weighted = case['dot'] == 'weighted'
  if weighted:
    sizes = [int(np.prod(s)) for s in split(kind, p.n)]
    if len(set(sizes)) != len(sizes):
      kind = 'array'
  f = solver(kind, p.n, weighted, case['pre'] != 'none',
             case['guess'] != 'none', tuple(sorted(opts.items())),
             case['jit'])
  arrs = [np.asarray(v, p.dtype) for v in (p.A, p.M, p.w, p.b, p.x0)]
  x, info = f(*arrs)
  core.check(jax.tree_util.tree_structure(x) == jax.tree_util.tree_structure(
      pack(kind, p.b, np)), 'structure of the solution')
  for l, s in zip(jax.tree_util.tree_leaves(x), split(kind, p.n)):
    core.check(l.shape == s, 'shape of the solution', got=l.shape, expected=s)
    core.check(l.dtype == p.dtype, 'type of the solution', got=l.dtype)
  core.check(set(info) >= {'residual', 'num_iterations'}, 'information')
  return (np.asarray(flat(jax.tree_util.tree_map(np.asarray, x), np), float),
          float(info['residual']), int(info['num_iterations']))


def run_iterates(case):
  """The k-th iterate is the best one of the Krylov space."""
  p = Problem(case, np.dtype('float64'))
  k = case['k']
  x, res, its = call(case, p, tol=1e-13, maxiter=k)
  want = p.best(k)
  scale = np.abs(p.sol).max() + np.abs(p.x0).max()
  core.check(its <= k, 'the iteration limit', its=its, limit=k)
  core.close(x, want, f'iterate {k}', rtol=0, atol=3e-8 * scale)
  exact = np.sqrt(p.energy(p.x0)) < 1e-7 * np.sqrt(p.dot(p.sol, p.A @ p.sol))
  if not exact and np.sqrt(p.energy(want)) > 1e-6 * np.sqrt(
      p.energy(p.x0)):
    core.check(its == k, 'number of iterations', its=its, limit=k)
  # the reported residual is that of the iterate
  core.close(res, p.gamma(x), 'reported residual', rtol=1e-6,
             atol=1e-12 * max(p.gamma(p.x0), p.gamma(np.zeros(p.n))))


def run_tolerance(case):
  import jax
  x64 = jax.config.jax_enable_x64
  p = Problem(case, np.dtype('float64' if x64 else 'float32'))
  eps = 1e-14 if x64 else 1e-5
  tol, atol, limit = case['tol'], case['atol'], case['limit']
  cond = case['cond'] * (3e2 if case['pre'] == 'inverse' else 30)
  if not x64:
    tol = max(tol, 1e-2)
    if case['cond'] > 100:
      case = dict(case, cond=100.)
      p = Problem(case, np.dtype('float32'))
      cond = 3000
  opts = {'tol': tol}
  if case['defaults'] and x64:
    opts, tol, atol = {}, 1e-5, 0.
  elif atol:
    opts['atol'] = atol
  if limit is not None:
    opts['maxiter'] = limit
  if case.get('tight') and p.dot(p.b, p.b) > 0:
    g = p.baseline(0., 0., case['k'] - 1)[1]
    if x64 and g > 1e-16 * p.dot(p.b, p.M @ p.b):
      tol = np.sqrt(.8 * g / p.dot(p.b, p.b))
      atol = np.sqrt(.8 * g)
      tol = tol * .7 if case['tight'] == 'atol' else tol
      atol = atol * .7 if case['tight'] == 'tol' else atol
      opts.update(tol=tol, atol=atol)
  x, res, its = call(case, p, **opts)
  maxiter = 10 * p.n if limit is None else limit
  lim = max(tol ** 2 * p.dot(p.b, p.b), atol ** 2)
  norms = max(p.gamma(p.x0), p.gamma(np.zeros(p.n)), p.dot(p.b, p.M @ p.b))
  # what rounding may change in r.Mr near the limit
  slack = lambda g: 1e-6 * g * (1 if x64 else 1e5) + (
      eps * cond) ** 2 * norms + eps * cond * np.sqrt(norms * max(g, 0))
  core.check(its <= maxiter, 'iteration limit', its=its, limit=maxiter)
  g = p.gamma(x)
  core.check(abs(res - g) <= slack(max(res, g)), 'reported residual', got=res,
             actual=g)
  if its < maxiter:
    core.check(g <= lim + slack(max(lim, g)), 'the tolerance is not met',
               residual=g, limit=lim, its=its)
    core.check(res <= lim * (1 + 1e-6) + 1e-300,
               'stopped before the tolerance was met',
               residual=res, limit=lim, its=its)
  xb, gb, kb = p.baseline(tol, atol, maxiter)
  if its > kb:
    # an additional iteration is only due to rounding (which CG amplifies
    # badly near its finite termination: compare with perturbed runs)
    gk = p.baseline(0., 0., its - 1)[1]
    worst = max([gk] + [p.perturbed(1e-14 if x64 else 1e-6, j).baseline(
        0., 0., its - 1)[1] for j in range(8)])
    core.check(30 * worst >= lim - slack(lim) - slack(gk),
               'went on although the tolerance was met',
               its=its, expected=kb, residual=gk, limit=lim)
  if limit is None and case['spectrum'] != 'spread' and case[
      'pre'] == 'none' and case['cond'] <= 100 and x64 and tol >= 1e-8:
    distinct = {'clusters': 3, 'two': 2, 'identity': 1}[case['spectrum']]
    core.check(its <= distinct, 'more iterations than distinct eigenvalues',
               its=its, distinct=distinct)
  if case['pre'] == 'inverse' and x64 and tol >= 1e-8:
    core.check(its <= 1, 'more than one iteration with the exact inverse',
               its=its)


def run_special(case):
  """Zero right-hand sides and exact guesses; the inputs are kept."""
  p = Problem(case, np.dtype('float64'))
  p.b = np.zeros(p.n)
  p.x0 = np.zeros(p.n)
  x, res, its = call(case, p, tol=case['tol'])
  core.check(its == 0 and res == 0 and not x.any(), 'zero right-hand side',
             its=its, x=x)
  p = Problem(dict(case, guess='exact'), np.dtype('float64'))
  x, res, its = call(dict(case, guess='exact'), p, tol=max(case['tol'], 1e-8))
  if case['cond'] <= 100 and case['pre'] != 'inverse':
    core.check(its == 0, 'an exact initial guess needs iterations', its=its)
    core.same(x, p.x0, 'the exact initial guess was changed')
  p = Problem(dict(case, guess='random'), np.dtype('float64'))
  x, res, its = call(dict(case, guess='random'), p, tol=1e-8, maxiter=0)
  core.check(its == 0, 'no iterations allowed', its=its)
  core.same(x, p.x0, 'returns the initial guess')
  core.close(res, p.gamma(p.x0), 'its residual', rtol=1e-8,
             atol=1e-10 * p.dot(p.b, p.M @ p.b))


def labels(case):
  return [f"n={case['n']}", f"spectrum={case['spectrum']}",
          f"pre={case['pre']}", f"dot={case['dot']}", f"tree={case['tree']}",
          f"guess={case['guess']}"]


def nontrivial(case):
  return (case['n'] >= 3 and case['limit'] not in (0, 1)
          and case['guess'] != 'exact' and case['spectrum'] != 'identity')


SUBS = {
    'iterates': core.Sub(case(iterates=True), run_iterates, labels, nontrivial,
                         'the k-th iterate is optimal in the Krylov space'),
    'tolerance': core.Sub(case(), run_tolerance, labels, nontrivial,
                          'stopping, residual and number of iterations'),
    'special': core.Sub(case(), run_special, labels, nontrivial,
                        'zero right-hand sides, exact guesses, no iterations'),
}
