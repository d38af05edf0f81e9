"""P23: the SDE integrator follows the Euler-Heun scheme on the given path."""

import numpy as np
from hypothesis import strategies as st

from vf import core, sde

RULE = ('A case is non-trivial if there are at least three steps and the '
        'diffusion is not zero (sampled paths: at least 1000 increments).')
PLAN = [
    {'subs': {'scheme': (70, 1500), 'segments': (22, 500)},
     'shards': (5, 12), 'env': {}},
    {'subs': {'brownian': (120, 1000)}, 'shards': (1, 2), 'env': {}},
    {'subs': {'scheme': (40, 600), 'long': (10, 120)}, 'shards': (2, 4),
     'env': {'x64': False}, 'tag': 'x32'},
]
ASSUMPTIONS = [
    'Output times within [0, 1], increasing, given as an array; the increments '
    'are divided equally among the intervals between output times.',
    'The statistics of the sampled increments are compared with bounds of six '
    'standard deviations.']


def _tol():
  import jax
  return 1e-11 if jax.config.jax_enable_x64 else 3e-4


def _stack(tree, ys, k):
  """Rows of states from the stacked tree of states."""
  import jax
  return np.stack([sde.unpack(tree, jax.tree_util.tree_map(
      lambda a: np.asarray(a)[i], ys), np) for i in range(k)])


def _shapes(prob, ys, k):
  import jax
  want = sde.pack(prob.case['tree'], prob.y0, np)
  ws, wt = jax.tree_util.tree_flatten(want)
  gs, gt = jax.tree_util.tree_flatten(ys)
  core.check(wt == gt, 'the states have the structure of the initial state')
  for w, g in zip(ws, gs):
    core.check(g.shape == (k,) + np.shape(w), 'one state for each output time',
               got=g.shape)


def run_scheme(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  prob = sde.Problem(case)
  tree, k = case['tree'], case['outputs']
  f, args = prob.f(jnp), prob.args(jnp)
  y0 = sde.pack(tree, jnp.asarray(prob.y0), jnp)
  ts, dw = jnp.asarray(prob.ts), jnp.asarray(prob.dw)
  mode = case['mode']
  expect = lambda y, w: prob.solve(y, prob.ts, w, prob.args(np), np)
  ref = expect(prob.y0, prob.dw)
  size = max(1., np.abs(ref).max())
  if mode in ('eager', 'twice', 'jit'):
    fn = lambda *a: sdeint(f, *a)
    if mode == 'jit':
      fn = jax.jit(fn)
    ys = fn(y0, ts, dw, *args)
    _shapes(prob, ys, k)
    core.close(_stack(tree, ys, k), ref, 'states', rtol=_tol(), scale=size)
    if mode == 'twice':
      # same function, another initial state and path
      rng = core.rng_of(case['seed'] + 1)
      y1, w1 = rng.uniform(-1, 1, prob.n), prob.dw[::-1].copy()
      ys = sdeint(f, sde.pack(tree, jnp.asarray(y1), jnp), ts, jnp.asarray(w1),
                  *args)
      ref = expect(y1, w1)
      core.close(_stack(tree, ys, k), ref, 'states of the second call',
                 rtol=_tol(), scale=max(1., np.abs(ref).max()))
    return
  rng = core.rng_of(case['seed'] + 1)
  y1, w1 = prob.y0, prob.dw
  if mode == 'vmap_y':
    y1 = rng.uniform(-1, 1, prob.n)
    ys = jax.vmap(lambda y: sdeint(f, sde.pack(tree, y, jnp), ts, dw, *args))(
        jnp.stack([jnp.asarray(prob.y0), jnp.asarray(y1)]))
  else:
    w1 = prob.dw[::-1] * .7
    ys = jax.vmap(lambda w: sdeint(f, y0, ts, w, *args))(
        jnp.stack([dw, jnp.asarray(w1)]))
  refs = [ref, expect(y1, w1)]
  for i in range(2):
    row = jax.tree_util.tree_map(lambda a: a[i], ys)
    _shapes(prob, row, k)
    core.close(_stack(tree, row, k), refs[i], 'batched states', rtol=_tol(),
               scale=max(1., np.abs(refs[i]).max()))


@st.composite
def segments_case(draw):
  case = draw(sde.case(modes=('eager',), max_steps=4))
  case['outputs'] = draw(st.integers(2, 4))
  case['cut'] = draw(st.integers(1, case['outputs'] - 1))
  case['splits'] = draw(st.sampled_from([1, 2, 3]))
  return case


def run_segments(case):
  """Consecutive intervals give the same as the whole interval."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  prob = sde.Problem(case)
  tree, k, c = case['tree'], case['outputs'], case['cut']
  f, args = prob.f(jnp), prob.args(jnp)
  y0 = sde.pack(tree, jnp.asarray(prob.y0), jnp)
  ts, dw = jnp.asarray(prob.ts), jnp.asarray(prob.dw)
  whole = sdeint(f, y0, ts, dw, *args)
  rows = _stack(tree, whole, k)
  size = max(1., np.abs(rows).max())
  m = c * case['steps']
  first = sdeint(f, y0, ts[:c + 1], dw[:m], *args)
  last = jax.tree_util.tree_map(lambda a: a[-1], first)
  second = sdeint(f, last, ts[c:], dw[m:], *args)
  got = np.concatenate([_stack(tree, first, c), _stack(tree, second, k - c)])
  core.close(got, rows, 'states over two intervals', rtol=_tol(), scale=size)
  # output times inside an interval don't influence the states
  s = case['splits']
  rng = core.rng_of(case['seed'] + 7)
  dw = rng.standard_normal((s * case['steps'] * k,) + prob.dw.shape[1:]) * .1
  coarse = sdeint(f, y0, ts, jnp.asarray(dw), *args)
  fine_ts = np.concatenate(
      [np.linspace(a, b, s + 1)[:-1] for a, b in zip(prob.ts, prob.ts[1:])]
      + [prob.ts[-1:]])
  fine = sdeint(f, y0, jnp.asarray(fine_ts), jnp.asarray(dw), *args)
  rows = _stack(tree, coarse, k)
  core.close(_stack(tree, fine, s * k)[s - 1::s], rows,
             'states with more output times', rtol=_tol(),
             scale=max(1., np.abs(rows).max()))


@st.composite
def long_case(draw):
  # few shapes, since each is compiled
  return {'n': draw(st.sampled_from([1000, 4096, 10000, 30000])),
          't0': draw(st.sampled_from([0., .1, .3, .7, .875])),
          'len': draw(st.sampled_from([1., .5, .1, .0625])),
          'outputs': draw(st.sampled_from([1, 2, 5]))}


def run_long(case):
  """Every increment is used once, at its own time."""
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  n, k = case['n'], case['outputs']
  n -= n % k
  t0 = case['t0']
  t1 = min(1., t0 + case['len'])
  ts = jnp.linspace(t0, t1, k + 1)
  f = lambda y, t, dw: (jnp.stack([0. * y[0], 1. + 0. * y[1], 2 * t]),
                        jnp.stack([dw, 0. * dw, 0. * dw]))
  ys = np.asarray(sdeint(f, jnp.zeros(3), ts, jnp.ones(n), ), np.float64)
  core.check(ys.shape == (k, 3), 'shape of the states', got=ys.shape)
  core.close(ys[:, 0], np.arange(1, k + 1) * (n // k),
             'number of increments which were used', rtol=0, atol=.5)
  t = np.asarray(ts, np.float64)
  core.close(ys[:, 1], t[1:] - t0, 'elapsed time', rtol=2e-3, scale=t1 - t0)
  # the left Riemann sum of 2 t
  core.close(ys[:, 2], t[1:] ** 2 - t0 ** 2, 'integral over time', rtol=1e-2,
             scale=t1 ** 2 - t0 ** 2)


@st.composite
def brownian_case(draw):
  return {'key': draw(st.integers(0, 2 ** 31 - 1)),
          'n': draw(st.sampled_from([1, 2, 7, 100, 1000, 4096, 20000,
                                     500000])),
          'dtype': draw(st.sampled_from(['float32', 'float32', 'float64']))}


def run_brownian(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import brownian_path
  n = case['n']
  dtype = getattr(jnp, case['dtype'])
  key = jax.random.PRNGKey(case['key'])
  w = brownian_path(key, n, dtype)
  core.check(w.shape == (n,) and w.dtype == dtype, 'shape and type',
             got=(w.shape, w.dtype))
  core.same(brownian_path(key, n, dtype), w, 'increments of the same key')
  if case['dtype'] == 'float32':
    core.same(brownian_path(key, n), w, 'single precision is the default')
  w = np.asarray(w, np.float64)
  core.check(np.all(np.isfinite(w)), 'finite increments')
  other = np.asarray(brownian_path(jax.random.PRNGKey(case['key'] + 1), n,
                                   dtype), np.float64)
  core.check(not np.any(w == other) if n < 100 else np.mean(w == other) < .01,
             'increments of different keys')
  z = w * np.sqrt(n)
  core.check(np.abs(z).max() < 8, 'size of the increments',
             got=np.abs(z).max())
  if n < 100:
    return
  six = 6 / np.sqrt(n)
  core.check(abs(z.mean()) < six, 'mean', got=z.mean())
  core.check(abs((z ** 2).mean() - 1) < six * np.sqrt(2), 'variance',
             got=(z ** 2).mean())
  if n >= 1000:
    core.check(abs((z ** 3).mean()) < six * np.sqrt(15), 'skewness',
               got=(z ** 3).mean())
    core.check(abs((z ** 4).mean() - 3) < six * np.sqrt(96) * 1.3, 'kurtosis',
               got=(z ** 4).mean())
    for lag in (1, 2, n // 2):
      c = (z[lag:] * z[:-lag]).mean()
      core.check(abs(c) < 6 / np.sqrt(n - lag), 'increments are independent',
                 lag=lag, got=c)
    c = (z * other * np.sqrt(n)).mean()
    core.check(abs(c) < six, 'paths of different keys are independent', got=c)
    # Kolmogorov-Smirnov distance to the normal distribution
    s = np.sort(z)
    cdf = np.asarray(jax.scipy.stats.norm.cdf(s), np.float64)
    d = max(np.abs(cdf - np.arange(n) / n).max(),
            np.abs(cdf - np.arange(1, n + 1) / n).max())
    core.check(d < 2.6 / np.sqrt(n), 'normal distribution', got=d)


def nontrivial(case):
  return case['diff'] != 'none' and case['outputs'] * case['steps'] >= 3


SUBS = {
    'scheme': core.Sub(sde.case(), run_scheme, sde.labels, nontrivial,
                       'states against a plain loop'),
    'segments': core.Sub(segments_case(), run_segments, sde.labels, nontrivial,
                         'one interval against several'),
    'long': core.Sub(long_case(), run_long, lambda c: [f"n={c['n']}"],
                     lambda c: True, 'many steps in single precision'),
    'brownian': core.Sub(brownian_case(), run_brownian,
                         lambda c: [f"n={c['n']}"], lambda c: c['n'] >= 1000,
                         'distribution of increments'),
}
