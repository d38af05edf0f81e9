"""P21: time-stepping coefficients have their order of accuracy."""

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf import core, strat

RULE = ('A case is non-trivial if the polynomial has the full degree k >= 2 '
        'and the newest sample is not at time zero.')
PLAN = [{'subs': {'polynomial': (500, 6000), 'advance': (60, 600)},
         'shards': (2, 4), 'env': {}}]
ASSUMPTIONS = ['Orders 1 to 8; the result is compared relative to the '
               'magnitude of the samples.']


@st.composite
def case(draw):
  k = draw(st.integers(1, 8))
  return {'k': k,
          'coefs': [draw(st.integers(-9, 9)) for _ in range(k)] + [
              draw(st.sampled_from([-3, -1, 1, 2]))],
          'dt': draw(st.sampled_from(['1', '1/2', '1/1000', '3', '7/100'])),
          't': draw(st.sampled_from(['0', '1', '-2', '5/3', '-1/10'])),
          'coeffs_only': False}


def run_polynomial(case):
  """In exact arithmetic with polynomials in (t - t0) / dt."""
  from swirl_fem.navier_stokes.navier_stokes import bdfk_coeffs, extk_coeffs
  k = case['k']
  dt, t0 = Fraction(case['dt']), Fraction(case['t'])
  cs = [Fraction(c) for c in case['coefs']]
  # q(s), s = (t - t0) / dt in units of the step, with t0 shifting the origin
  q = lambda s: sum(c * (s - t0) ** i for i, c in enumerate(cs))
  dq = lambda s: sum(i * c * (s - t0) ** (i - 1) for i, c in enumerate(cs)
                     if i)
  # samples at times T - k dt .. T; u(t) = q(t / dt)
  samples = [q(Fraction(-k + j)) for j in range(k + 1)]
  b, e = np.asarray(bdfk_coeffs(k)), np.asarray(extk_coeffs(k))
  core.check(b.shape == (k + 1,), 'number of the BDF coefficients',
             got=b.shape)
  core.check(e.shape == (k + 1,), 'number of the extrapolation coefficients',
             got=e.shape)
  core.check(b.dtype == np.float64 and e.dtype == np.float64, 'precision')
  s = np.array([float(v) for v in samples])
  scale = float(np.abs(b) @ np.abs(s)) + 1e-300
  # dt u'(T) = q'(0); the step cancels
  core.close(float(b @ s), float(dq(Fraction(0))), 'derivative', rtol=1e-12,
             scale=scale)
  scale = float(np.abs(e) @ np.abs(s)) + 1e-300
  core.close(float(e @ s), float(q(Fraction(1))), 'extrapolated value',
             rtol=1e-12, scale=scale)
  # with a time axis in seconds
  u = lambda t: float(q(t / dt))
  T = Fraction(0)
  s2 = np.array([u(T - (k - j) * dt) for j in range(k + 1)])
  core.close(float(b @ s2) / float(dt), float(dq(Fraction(0)) / dt),
             'time derivative', rtol=1e-12,
             scale=float(np.abs(b) @ np.abs(s2)) / float(dt) + 1e-300)
  # consistency
  core.close(b.sum(), 0., 'constants have no derivative', rtol=1e-13,
             scale=np.abs(b).sum())
  core.close(e.sum(), 1., 'constants are extrapolated', rtol=1e-13,
             scale=np.abs(e).sum())


def run_advance(case):
  """The implicit step with these coefficients follows a polynomial exactly."""
  from swirl_fem.navier_stokes.navier_stokes import bdfk_coeffs, extk_coeffs
  k = case['k']
  dt, t0 = float(Fraction(case['dt'])), float(Fraction(case['t']))
  p = np.poly1d([float(c) for c in case['coefs']][::-1])
  y = lambda s: p((s - t0) / 4)
  b, e = bdfk_coeffs(k), extk_coeffs(k)
  hist = [y(j) for j in range(k + 1)]
  for n in range(k + 1, k + 3):
    # (sum_j b_j y_j) = dt y'(t)
    rhs = np.polyder(p)((n - t0) / 4) / 4
    new = (rhs - b[:-1] @ np.array(hist[-k:])) / b[-1]
    size = np.abs(b).sum() * max(map(abs, hist + [y(n), rhs]))
    core.close(new, y(n), 'BDF step', rtol=1e-11, scale=size + 1e-300)
    guess = e @ np.array(hist[-k - 1:])
    size = np.abs(e).sum() * max(map(abs, hist + [y(n)]))
    core.close(guess, y(n), 'extrapolation', rtol=1e-11, scale=size + 1e-300)
    hist.append(y(n))


def labels(case):
  return [f"k={case['k']}"]


def nontrivial(case):
  return case['k'] >= 2 and case['t'] != '0'


SUBS = {'polynomial': core.Sub(case(), run_polynomial, labels, nontrivial,
                               'exact derivative and extrapolation'),
        'advance': core.Sub(case(), run_advance, labels, nontrivial,
                            'steps along a polynomial')}
