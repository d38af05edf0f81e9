"""Generated stochastic differential equations and their reference solution.

The state is a tree of arrays; the drift and diffusion are built from the
parameters of the case, with the same code for numpy (reference) and jax.
"""
import numpy as np
from hypothesis import strategies as st

from vf import core

TREES = ['array', 'scalar', 'dict', 'tuple', 'nested', 'matrix']
SIZES = {'array': 3, 'scalar': 1, 'dict': 5, 'tuple': 4, 'nested': 6,
         'matrix': 4}


def pack(tree, v, xp):
  """The tree of arrays with the entries of the vector `v`.

  The order of the entries is unrelated to the one used by jax.
  """
  if tree == 'array':
    return v
  if tree == 'scalar':
    return v[0]
  if tree == 'matrix':
    return xp.reshape(v, (2, 2))
  if tree == 'dict':
    return {'z': v[:2], 'a': v[2:5]}
  if tree == 'tuple':
    return (v[1:4], v[0])
  return {'q': [v[0], xp.reshape(v[2:6], (2, 2))], 'b': (v[1:2],)}


def unpack(tree, y, xp):
  r = lambda a: xp.reshape(a, (-1,))
  if tree in ('array', 'scalar', 'matrix'):
    return r(y)
  if tree == 'dict':
    return xp.concatenate([r(y['z']), r(y['a'])])
  if tree == 'tuple':
    return xp.concatenate([r(y[1]), r(y[0])])
  return xp.concatenate([r(y['q'][0]), r(y['b'][0]), r(y['q'][1])])


@st.composite
def case(draw, drifts=('none', 'linear', 'nonlinear', 'time', 'full'),
         diffs=('none', 'additive', 'linear', 'nonlinear', 'time', 'full'),
         trees=TREES, modes=('eager', 'jit', 'vmap_y', 'vmap_w', 'twice'),
         max_steps=6, even=None):
  k = draw(st.integers(1, 4))
  times = draw(st.sampled_from(
      ['even'] if even else ['even', 'even', 'late', 'uneven']))
  return {'seed': draw(st.integers(0, 2 ** 32)),
          'tree': draw(st.sampled_from(list(trees))),
          'drift': draw(st.sampled_from(list(drifts))),
          'diff': draw(st.sampled_from(list(diffs))),
          'noise': draw(st.sampled_from([0, 0, 1, 2, 3])),
          'outputs': k, 'steps': draw(st.integers(1, max_steps)),
          'times': times,
          'args': draw(st.sampled_from(['closure', 'one', 'two', 'dict',
                                        'mixed'])),
          'mode': draw(st.sampled_from(list(modes)))}


def make_times(case, rng):
  k = case['outputs']
  if case['times'] == 'even':
    return np.arange(k + 1) / k
  if case['times'] == 'late':
    return .5 + np.arange(k + 1) / (4 * k)
  t = np.cumsum(rng.uniform(.05, .3, k + 1))
  return t / max(1., t[-1] * 1.1)


class Problem:
  """The equation of a case: parameters, path, times and functions."""

  def __init__(self, case, scale=1.):
    rng = core.rng_of(case)
    self.case = case
    self.n = SIZES[case['tree']]
    n, m = self.n, max(1, case['noise'])
    self.ts = make_times(case, rng)
    steps = case['outputs'] * case['steps']
    shape = (steps,) + ((case['noise'],) if case['noise'] else ())
    self.dw = rng.standard_normal(shape) * .4 / np.sqrt(steps)
    self.y0 = rng.uniform(-1, 1, n)
    self.p = {
        'A': rng.uniform(-1, 1, (n, n)) * scale,
        'B': rng.uniform(-1, 1, n), 'C': rng.uniform(-2, 2, (n, n)) / n,
        'w': rng.uniform(1, 4, n), 'b': rng.uniform(-1, 1, n),
        'G': rng.uniform(-1, 1, (n, m)), 'H': rng.uniform(-1, 1, (m, n, n)),
        'K': rng.uniform(-1, 1, (n, m)), 'v': rng.uniform(1, 4, n)}

  def terms(self, y, t, dw, p, xp):
    """Drift and diffusion as vectors."""
    kind, n = self.case['drift'], self.n
    dw = xp.reshape(dw, (-1,))
    mu = 0. * y
    if kind in ('linear', 'full'):
      mu = mu + p['A'] @ y
    if kind in ('nonlinear', 'full'):
      mu = mu + p['B'] * xp.sin(p['C'] @ y)
    if kind in ('time', 'full'):
      mu = mu + p['b'] * xp.cos(p['w'] * t)
    if kind == 'time':
      mu = mu + p['B'] * y * t
    kind = self.case['diff']
    sigma = 0. * y
    if kind in ('additive', 'full', 'time'):
      g = p['G'] @ dw
      if kind == 'time':
        g = g * xp.cos(p['v'] * t)
      sigma = sigma + g
    if kind in ('linear', 'full', 'time'):
      sigma = sigma + xp.einsum('mij,m,j->i', p['H'], dw, y) * (
          1. + t if kind == 'time' else 1.)
    if kind in ('nonlinear', 'full'):
      sigma = sigma + xp.cos(p['C'] @ y) * (p['K'] @ dw)
    return mu, sigma

  # -- with the interface of sdeint ------------------------------------------

  def args(self, xp):
    p = {k: xp.asarray(v) for k, v in self.p.items()}
    kind = self.case['args']
    if kind == 'closure':
      return ()
    if kind == 'one':
      return (p['A'],)
    if kind == 'two':
      return (p['H'], p['B'])
    if kind == 'dict':
      return (p,)
    return ({'g': (p['G'], p['K'])}, p['b'], xp.asarray(3))

  def params(self, args, xp):
    p = {k: xp.asarray(v) for k, v in self.p.items()}
    kind = self.case['args']
    if kind == 'one':
      p['A'] = args[0]
    elif kind == 'two':
      p['H'], p['B'] = args
    elif kind == 'dict':
      p = args[0]
    elif kind == 'mixed':
      p['G'], p['K'] = args[0]['g']
      p['b'] = args[1]
      p['w'] = p['w'] * (args[2] / 3)
    return p

  def f(self, xp):
    tree = self.case['tree']

    def fn(y, t, dw, *args):
      mu, sigma = self.terms(unpack(tree, y, xp), t, dw,
                             self.params(args, xp), xp)
      return pack(tree, mu, xp), pack(tree, sigma, xp)
    return fn

  def solve(self, y0, ts, dw, args, xp, step=None):
    """Euler-Heun applied step by step; the states as rows of an array."""
    p = self.params(args, xp)
    y, out = y0, []
    n = len(dw) // (len(ts) - 1)
    for i in range(len(ts) - 1):
      dt = (ts[i + 1] - ts[i]) / n
      for j in range(n):
        t = ts[i] + j * dt
        w = dw[i * n + j]
        mu, s = self.terms(y, t, w, p, xp)
        _, s2 = self.terms(y + s, t + dt, w, p, xp)
        y = y + mu * dt + .5 * (s + s2)
      out.append(y)
    return xp.stack(out)


def labels(case):
  return [f"tree={case['tree']}", f"drift={case['drift']}",
          f"diff={case['diff']}", f"args={case['args']}",
          f"times={case['times']}", f"mode={case['mode']}",
          'vector-noise' if case['noise'] else 'scalar-noise']
