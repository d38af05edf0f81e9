"""P24: gradients through the SDE integrator are those of the solution."""

import numpy as np
from hypothesis import strategies as st

from vf import core, sde

RULE = ('A case is non-trivial if there are at least three steps and the '
        'diffusion is not zero.')
PLAN = [
    {'subs': {'exact': (30, 500), 'structure': (14, 250)},
     'shards': (4, 10), 'env': {}},
    {'subs': {'exact': (20, 200), 'structure': (8, 80)},
     'shards': (1, 4), 'env': {'x64': False}, 'tag': 'x32'},
    {'subs': {'convergence': (12, 240)}, 'shards': (2, 6), 'env': {}},
    {'subs': {'module': (14, 300)}, 'shards': (2, 6), 'env': {}},
]
ASSUMPTIONS = [
    'Exactness is only claimed if the reverse solve is exact: with respect to '
    'the initial state if drift and diffusion are affine in the state and the '
    'drift does not depend on time; with respect to arguments which enter '
    'additively into such equations. Everything else is decided by the error '
    'decreasing in proportion to the step size (commuting noise).',
    'No gradients with respect to the times and the path are claimed.']


def _tol(double=1e-11):
  import jax
  return double if jax.config.jax_enable_x64 else 2e-3


def _tree_vec(tree, g):
  import jax
  return sde.unpack(tree, jax.tree_util.tree_map(np.asarray, g), np)


def _weights(prob, rng):
  """Weights of the outputs in the loss; some outputs have none."""
  w = rng.uniform(-1, 1, (prob.case['outputs'], prob.n))
  pick = rng.integers(0, 3)
  if pick == 1:
    w[:-1] = 0.
  elif pick == 2:
    w[1:] = 0.
  return w


def _loss(prob, w, f, ts, dw, nonlinear=False):
  """The loss as function of the state (as a vector) and the arguments."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  tree = prob.case['tree']
  # the weights in the structure of the stacked states
  wt = jax.tree_util.tree_map(
      lambda *a: jnp.stack(a),
      *[sde.pack(tree, jnp.asarray(row), jnp) for row in w])

  def loss(y0, *args):
    ys = sdeint(f, y0, ts, dw, *args)
    terms = jax.tree_util.tree_map(
        lambda a, b: jnp.sum(a * (jnp.sin(b) if nonlinear else b)), wt, ys)
    return sum(jax.tree_util.tree_leaves(terms))
  return loss


@st.composite
def exact_case(draw):
  case = draw(sde.case(drifts=('none', 'linear', 'constant'),
                       diffs=('none', 'additive', 'linear', 'time'),
                       modes=('eager', 'jit', 'vmap'), max_steps=5))
  case['args'] = draw(st.sampled_from(['dict', 'dict', 'mixed', 'closed']))
  return case


class AffineProblem(sde.Problem):
  """Adds a drift which is a constant parameter."""

  def terms(self, y, t, dw, p, xp):
    mu, sigma = super().terms(y, t, dw, p, xp)
    if self.case['drift'] == 'constant':
      mu = mu + p['b']
    return mu, sigma


def run_exact(case):
  import jax
  import jax.numpy as jnp
  prob = AffineProblem(case)
  rng = core.rng_of(case['seed'] + 3)
  w = _weights(prob, rng)
  tree = case['tree']
  ts, dw = jnp.asarray(prob.ts), jnp.asarray(prob.dw)
  y0 = sde.pack(tree, jnp.asarray(prob.y0), jnp)
  args = prob.args(jnp)
  if case['args'] == 'closed':
    # gradients with respect to values which the function closes over
    args = ({k: jnp.asarray(v) for k, v in prob.p.items()},)
    prob.case = dict(case, args='dict')

    def loss(y0, p):
      f = prob.f(jnp)
      return _loss(prob, w, lambda y, t, dw: f(y, t, dw, p), ts, dw)(y0)
  else:
    loss = _loss(prob, w, prob.f(jnp), ts, dw)

  diff = tuple(range(1 + len(args)))
  if case['args'] == 'mixed':
    diff = diff[:-1]  # the last one is an integer
  grad = jax.grad(loss, diff)
  if case['mode'] == 'jit':
    got = jax.jit(grad)(y0, *args)
  elif case['mode'] == 'vmap':
    both = jax.tree_util.tree_map(lambda a: jnp.stack([a, 2 * a + .5]), y0)
    got = jax.vmap(grad, (0,) + (None,) * len(args))(both, *args)
    got = jax.tree_util.tree_map(lambda a: a[0], got)
  else:
    got = grad(y0, *args)

  def plain(y, *args):
    ys = prob.solve(y, jnp.asarray(prob.ts), dw, args, jnp)
    return jnp.sum(w * ys)
  ref = jax.jit(jax.grad(plain, diff))(jnp.asarray(prob.y0), *args)
  s = max(1., float(np.abs(ref[0]).max()))
  core.close(_tree_vec(tree, got[0]), ref[0],
             'gradient with respect to the initial state', rtol=_tol(), scale=s)
  g, r = got[1], ref[1]
  if case['args'] == 'mixed':
    pairs = [('G', got[1]['g'][0], ref[1]['g'][0]),
             ('K', got[1]['g'][1], ref[1]['g'][1]), ('b', got[2], ref[2])]
  else:
    pairs = [(k, g[k], r[k]) for k in r]
  for name, a, b in pairs:
    # H and A multiply the state, so that their gradients aren't exact
    if name in ('G', 'v') or name == 'b' and case['drift'] == 'constant':
      core.close(a, b, f'gradient with respect to {name}', rtol=_tol(),
                 scale=max(1., float(np.abs(b).max())))
    elif not np.any(np.asarray(b)):
      core.close(a, 0. * b, f'gradient with respect to unused {name}',
                 rtol=0, atol=_tol(1e-12))


def structure_case():
  return sde.case(modes=('eager', 'jit'), max_steps=4)


def run_structure(case):
  """Values, linearity in the cotangents and agreement of formulations."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  prob = sde.Problem(case)
  rng = core.rng_of(case['seed'] + 3)
  tree = case['tree']
  ts, dw = jnp.asarray(prob.ts), jnp.asarray(prob.dw)
  y0 = sde.pack(tree, jnp.asarray(prob.y0), jnp)
  f, args = prob.f(jnp), prob.args(jnp)
  solve = lambda y, *a: sdeint(f, y, ts, dw, *a)
  wrap = jax.jit if case['mode'] == 'jit' else lambda g: g

  primal = solve(y0, *args)
  cots = [jax.tree_util.tree_map(
      lambda a: jnp.asarray(rng.uniform(-1, 1, a.shape)), primal)
          for _ in range(2)]
  c = float(rng.uniform(-2, 2))

  @wrap
  def pull(ct):
    value, vjp = jax.vjp(solve, y0, *args)
    return value, vjp(ct)[:1 + len(args) - (case['args'] == 'mixed')]
  value, g0 = pull(cots[0])
  _, g1 = pull(cots[1])
  _, g2 = pull(jax.tree_util.tree_map(lambda a, b: a + c * b, *cots))
  leaves = jax.tree_util.tree_leaves
  for a, b in zip(leaves(value), leaves(primal)):
    core.close(a, b, 'value computed with the gradient', rtol=_tol(1e-13),
               scale=max(1., float(np.abs(b).max())))
  size = max(1., max(float(np.abs(a).max()) for a in leaves((g0, g1))))
  for a, b, d in zip(leaves(g0), leaves(g1), leaves(g2)):
    core.close(d, a + c * b, 'gradients are linear in the cotangents',
               rtol=_tol(), scale=size)
  # unrolled over the output times: one interval after the other
  n = case['steps']

  def unrolled(y, *a):
    out = []
    for i in range(case['outputs']):
      ys = sdeint(f, y, ts[i:i + 2], dw[i * n:(i + 1) * n], *a)
      y = jax.tree_util.tree_map(lambda v: v[0], ys)
      out.append(y)
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out)
  _, vjp = jax.vjp(unrolled, y0, *args)
  g3 = vjp(cots[0])[:len(g0)]
  for a, b in zip(leaves(g3), leaves(g0)):
    core.close(a, b, 'gradients over several intervals', rtol=_tol(),
               scale=size)
  # parameters as arguments or as values of the closure
  if args and case['args'] != 'mixed':
    def closed(y, *a):
      return sdeint(lambda y, t, dw: f(y, t, dw, *a), y, ts, dw)
    _, vjp = jax.vjp(closed, y0, *args)
    g4 = vjp(cots[0])
    for a, b in zip(leaves(g4), leaves(g0)):
      core.close(a, b, 'gradients of closed-over values', rtol=_tol(),
                 scale=size)


@st.composite
def convergence_case(draw):
  case = draw(sde.case(drifts=('linear', 'nonlinear', 'time', 'full'),
                       diffs=('none', 'linear', 'nonlinear', 'time', 'full'),
                       trees=('array', 'dict', 'nested'), modes=('jit',),
                       even=True))
  case.update(noise=0, outputs=draw(st.integers(1, 2)), steps=512, args='dict',
              path=draw(st.sampled_from(['smooth', 'rough'])))
  return case


def run_convergence(case):
  import jax
  import jax.numpy as jnp
  prob = sde.Problem(case)
  rng = core.rng_of(case['seed'] + 3)
  w = _weights(prob, rng)
  tree, k = case['tree'], case['outputs']
  ts = jnp.asarray(prob.ts)
  total = 512 * k
  if case['path'] == 'smooth':
    s = (np.arange(total) + .5) / total
    fine = (1.5 * np.cos(5 * s + case['seed'] % 7)
            + .5 * np.sin(9 * s)) / total
  else:
    fine = rng.standard_normal(total) * .5 / np.sqrt(total)
  y0 = sde.pack(tree, jnp.asarray(prob.y0), jnp)
  args = prob.args(jnp)

  def error(n):
    dw = jnp.asarray(fine.reshape(k * n, -1).sum(1))
    g = jax.jit(jax.grad(
        _loss(prob, w, prob.f(jnp), ts, dw, nonlinear=True), (0, 1)))(
            y0, *args)

    def plain(y, p):
      out = []
      for i in range(k):
        dt = (prob.ts[i + 1] - prob.ts[i]) / n

        def step(y, x):
          t, v = x
          mu, s = prob.terms(y, t, v, p, jnp)
          _, s2 = prob.terms(y + s, t + dt, v, p, jnp)
          return y + mu * dt + .5 * (s + s2), None
        y, _ = jax.lax.scan(step, y, (prob.ts[i] + jnp.arange(n) * dt,
                                      dw[i * n:(i + 1) * n]))
        out.append(y)
      return jnp.sum(w * jnp.sin(jnp.stack(out)))
    r = jax.jit(jax.grad(plain, (0, 1)))(jnp.asarray(prob.y0), *args)
    scale = max(float(np.abs(v).max()) for v in r[1].values())
    scale = max(scale, float(np.abs(r[0]).max()))
    errs = [np.abs(_tree_vec(tree, g[0]) - r[0]).max() / scale]
    errs += [float(np.abs(g[1][q] - r[1][q]).max()) / scale for q in r[1]]
    core.check(np.all(np.isfinite(errs)), 'finite gradients')
    return np.array(errs)
  coarse, fine_err = error(128), error(512)
  core.check(np.all(fine_err <= .4 * coarse.max() + 1e-3)
             and fine_err.max() < 4e-2,
             'the gradients converge to those of the solution',
             coarse=coarse.tolist(), fine=fine_err.tolist())


@st.composite
def module_case(draw):
  k = draw(st.integers(1, 3))
  return {'seed': draw(st.integers(0, 2 ** 32)),
          'n': draw(st.integers(1, 4)), 'width': draw(st.sampled_from([2, 5])),
          'tree': draw(st.sampled_from(['array', 'array', *sde.SIZES])),
          'free': draw(st.sampled_from([False, False, False, True])),
          'layers': draw(st.integers(1, 2)), 'outputs': k,
          'steps': draw(st.integers(1, 5)),
          'noise': draw(st.sampled_from(['scalar', 'vector'])),
          'kind': draw(st.sampled_from(['class', 'class', 'submodule',
                                        'args'])),
          'jit': draw(st.booleans()), 'norm': draw(st.booleans())}


def run_module(case):
  import flax.linen as nn
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.flax_nn_sde import nn_sdeint
  from swirl_fem.sde.sdeint import sdeint
  rng = core.rng_of(case)
  width, layers, tree = case['width'], case['layers'], case['tree']
  n = case['n'] if tree == 'array' else sde.SIZES[tree]
  to_tree = lambda v: sde.pack(tree, v, jnp)
  to_vec = lambda y: sde.unpack(tree, y, jnp)

  class Net(nn.Module):
    """Drift and diffusion of a neural SDE."""

    @nn.compact
    def __call__(self, y, t, dw, *extra):
      x = to_vec(y)
      if case['free']:  # a module without parameters
        for e in extra:
          x = x * e
        return (to_tree(jnp.cos(x) - t * x[::-1]),
                to_tree(.5 * jnp.sin(x) * dw))
      h = jnp.concatenate([x, jnp.reshape(t, (1,))])
      for e in extra:
        h = h * e
      for _ in range(layers):
        h = jnp.tanh(nn.Dense(width)(h))
      if case['norm']:
        h = nn.LayerNorm()(h)
      scale = self.param('scale', nn.initializers.ones, (n,))
      return (to_tree(nn.Dense(n)(h)),
              to_tree(scale * jnp.sin(nn.Dense(n)(h)) * dw))

  extra = (jnp.asarray(1.3),) if case['kind'] == 'args' else ()
  if case['kind'] == 'submodule':
    class Outer(nn.Module):
      """Uses the integral between other layers."""

      @nn.compact
      def __call__(self, y, ts, dw):
        x = nn.Dense(n, name='pre')(to_vec(y))
        return nn_sdeint(Net)(name='sde')(to_tree(x), ts, dw)
    module = Outer()
  else:
    module = nn_sdeint(Net)()

  k = case['outputs']
  m = k * case['steps']
  shape = (m, n) if case['noise'] == 'vector' else (m,)
  dw = jnp.asarray(rng.standard_normal(shape) * .3)
  ts = jnp.linspace(0., 1., k + 1)
  x = to_tree(jnp.asarray(rng.uniform(-1, 1, n)))
  w = jnp.asarray(rng.uniform(-1, 1, (k, n)))
  key = jax.random.PRNGKey(case['seed'] % 2 ** 31)
  first, params = module.init_with_output(key, x, ts, dw, *extra)
  shapes = lambda a: jax.tree_util.tree_map(jnp.shape, a)
  core.check(shapes(first) == jax.tree_util.tree_map(
      lambda a: (k,) + jnp.shape(a), x), 'states of the initialization',
             got=str(shapes(first)))
  # perturb, so that biases and scales aren't at their special initial values
  leaves, treedef = jax.tree_util.tree_flatten(params)
  params = jax.tree_util.tree_unflatten(treedef, [
      jnp.asarray(a + rng.uniform(-.3, .3, a.shape)) for a in leaves])

  def inner(params):
    p = params.get('params', {})
    return p.get('sde', {}) if case['kind'] == 'submodule' else p

  def start(params, x):
    if case['kind'] != 'submodule':
      return x
    p = params['params']['pre']
    return to_tree(to_vec(x) @ p['kernel'] + p['bias'])

  def plain(params, x):
    return sdeint(lambda y, t, dw, p, *e: Net().apply(
        {'params': p}, y, t, dw, *e), start(params, x), ts, dw, inner(params),
                  *extra)
  lifted = lambda params, x: module.apply(params, x, ts, dw, *extra)
  rows = lambda ys: jnp.stack([
      to_vec(jax.tree_util.tree_map(lambda a: a[i], ys)) for i in range(k)])
  wrap = jax.jit if case['jit'] else lambda g: g
  got, ref = rows(wrap(lifted)(params, x)), rows(plain(params, x))
  core.close(got, ref, 'states of the module', rtol=1e-12,
             scale=max(1., float(np.abs(ref).max())))
  # and of the scheme
  net = lambda y, t, v: [to_vec(a) for a in Net().apply(
      {'params': inner(params)}, to_tree(y), t, v, *extra)]
  y = to_vec(start(params, x))
  dt = 1. / m
  for i in range(m):
    mu, s = net(y, i * dt, dw[i])
    _, s2 = net(y + s, (i + 1) * dt, dw[i])
    y = y + mu * dt + .5 * (s + s2)
    if (i + 1) % case['steps'] == 0:
      core.close(got[(i + 1) // case['steps'] - 1], y, 'states of the scheme',
                 rtol=1e-10, scale=max(1., float(np.abs(y).max())))

  loss = lambda fn: lambda p, x: jnp.sum(w * jnp.sin(rows(fn(p, x))))
  g = wrap(jax.grad(loss(lifted), (0, 1)))(params, x)
  r = jax.grad(loss(plain), (0, 1))(params, x)
  core.check(jax.tree_util.tree_structure(g) == jax.tree_util.tree_structure(r),
             'structure of the gradients')
  size = max(1., max(float(np.abs(a).max())
                     for a in jax.tree_util.tree_leaves(r)))
  for a, b in zip(*map(jax.tree_util.tree_leaves, (g, r))):
    core.close(a, b, 'gradients of the module', rtol=1e-11, scale=size)


def nontrivial(case):
  return case['diff'] != 'none' and case['outputs'] * case['steps'] >= 3


SUBS = {
    'exact': core.Sub(exact_case(), run_exact, sde.labels, nontrivial,
                      'differentiation of the plain loop'),
    'structure': core.Sub(structure_case(), run_structure, sde.labels,
                          nontrivial, 'linearity and equal formulations'),
    'convergence': core.Sub(convergence_case(), run_convergence,
                            lambda c: sde.labels(c) + [f"path={c['path']}"],
                            nontrivial, 'error in proportion to the step'),
    'module': core.Sub(module_case(), run_module,
                       lambda c: [f"kind={c['kind']}", f"jit={c['jit']}",
                                  f"free={c['free']}", f"tree={c['tree']}"],
                       lambda c: c['outputs'] * c['steps'] >= 3,
                       'lifted modules against plain functions'),
}
