"""P02: node sets and quadrature rules are exact to their stated degree."""

import math

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, ref, strat

RULE = ('A case is non-trivial if the rule has at least 3 points, or if it is '
        'applied in more than one dimension.')
PLAN = [
    {'subs': {'rule': (500, 3000), 'product': (300, 2000)},
     'shards': (3, 6), 'env': {}},
]
ASSUMPTIONS = [
    'At most 40 points per rule, at least 2 for the equispaced and '
    'Gauss-Lobatto families.']


@st.composite
def case(draw, cap=40):
  kind = draw(st.sampled_from(['nc', 'gl', 'gll']))
  n = draw(st.integers(1 if kind == 'gl' else 2, cap))
  return {'kind': kind, 'n': n, 'ndim': draw(st.integers(1, 3)),
          'via': draw(st.sampled_from(['create', 'from_nodes'])),
          'seed': draw(strat.seeds)}


def make(case):
  from swirl_fem.core.interpolation import Quadrature1D
  if case['via'] == 'create':
    return gen.quad1d(case['kind'], case['n'])
  return Quadrature1D.create_from_nodes_1d(
      gen.nodes1d(case['kind'], case['n']))


def run_rule(case):
  kind, n = case['kind'], case['n']
  q = make(case)
  nd = q.nodes
  x = np.asarray(nd.node_values)
  w = np.asarray(q.weights)
  core.check(q.num_points == n and nd.num_points == n, 'number of points')
  core.check(q.quadrature_type == gen.node_type(kind)
             and nd.node_type == gen.node_type(kind), 'type of the rule')
  core.check(x.shape == (n,) and w.shape == (n,), 'shape', x=x.shape,
             w=w.shape)
  core.check(np.all(np.diff(x) > 0), 'nodes are strictly increasing', x=x)
  core.check(np.all(np.abs(x) <= 1), 'nodes are inside [-1, 1]', x=x)
  core.close(x, -x[::-1], 'nodes are symmetric', rtol=0, atol=1e-13)
  core.close(x, ref.nodes(kind, n), 'nodes', rtol=0, atol=1e-12)
  core.check(np.all(w > 0), 'weights are positive', w=w)
  core.close(w.sum(), 2., 'sum of the weights', rtol=0, atol=1e-12)
  core.close(w, w[::-1], 'weights are symmetric', rtol=0, atol=1e-12)
  ends = x[0] == -1. and x[-1] == 1.
  core.check(ends == (kind != 'gl'), 'contains both end points', x=x)
  core.check(bool(nd.is_continuous()) == (kind != 'gl'), 'claims continuity')
  if kind == 'nc':
    # composite trapezoidal rule, on random data
    y = core.rng_of(case).normal(size=n)
    core.close(w @ y, np.sum((y[1:] + y[:-1]) / 2 * (2 / (n - 1))),
               'trapezoidal rule', rtol=0, atol=1e-12 * n)
    deg = 1
  else:
    deg = 2 * n - 1 if kind == 'gl' else 2 * n - 3
  # Exactness in the Legendre basis (well conditioned), then on monomials.
  for k in range(deg + 1):
    c = np.zeros(k + 1)
    c[k] = 1
    v = w @ np.polynomial.legendre.legval(x, c)
    core.close(v, 2. if k == 0 else 0., f'integral of P_{k}', rtol=0,
               atol=2e-12)
  e = int(core.rng_of(case).integers(0, deg + 1))
  core.close(w @ x ** e, 0. if e % 2 else 2. / (e + 1), f'integral of x^{e}',
             rtol=0, atol=1e-12)


def run_product(case):
  kind, n, d = case['kind'], case['n'], case['ndim']
  q = make(case)
  w = np.asarray(q.weights_nd(d))
  core.close(w, ref.weights_nd(ref.weights(kind, n), d), 'tensor weights',
             rtol=0, atol=1e-12)
  core.close(w.sum(), 2. ** d, 'volume of the cube', rtol=0, atol=1e-11)
  # integrates products of 1D polynomials exactly, with the last axis fastest
  rng = core.rng_of(case)
  deg = {'nc': 1, 'gl': 2 * n - 1, 'gll': 2 * n - 3}[kind]
  X = ref.grid(np.asarray(q.nodes.node_values), d)
  p = ref.random_poly(rng, d, min(deg, 12))
  exact = sum(c * math.prod(0. if k % 2 else 2. / (k + 1) for k in e)
              for e, c in zip(p.exps, p.coefs))
  core.close(w @ p(X), exact, 'integral of a polynomial on the cube', rtol=0,
             atol=1e-11)
  # different weights per axis would not be exchangeable: use a function of a
  # single axis at a time which tells apart the orders
  vals = rng.normal(size=(d, n))
  T = np.array(list(np.ndindex(*([n] * d)))).reshape(-1, d)
  f = np.prod([vals[i][T[:, i]] for i in range(d)], axis=0)
  w1 = np.asarray(q.weights)
  core.close(w @ f, np.prod([w1 @ vals[i] for i in range(d)]),
             'integral of a product', rtol=0, atol=1e-11 * n ** d)


def labels(case):
  return [case['kind'], f"ndim={case['ndim']}", case['via']]


@st.composite
def nd_case(draw):
  c = draw(case())
  c['n'] = min(c['n'], {1: 30, 2: 12, 3: 7}[c['ndim']])
  return c


SUBS = {
    'rule': core.Sub(case(), run_rule, labels, lambda c: c['n'] >= 3,
                     'exactness on all Legendre polynomials of the degree'),
    'product': core.Sub(nd_case(), run_product, labels,
                        lambda c: c['ndim'] >= 2, 'tensor-product weights'),
}
