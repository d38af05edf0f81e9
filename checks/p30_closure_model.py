"""P30: the closure model is the network its configuration describes."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, nets, strat

RULE = ('A case is non-trivial if the network has a pooling layer, or the '
        'latent state several tokens or samples.')
PLAN = [
    {'subs': {'network': (4, 40), 'gradient': (3, 30)}, 'shards': (7, 7),
     'env': {'x64': False}},
    {'subs': {'latent': (4, 60), 'plain': (4, 60)}, 'shards': (4, 4),
     'env': {'x64': False}, 'tag': 'latent'},
    {'subs': {'latent gradient': (12, 60)}, 'shards': (2, 4),
     'env': {'x64': False}, 'tag': 'gradient'},
    {'subs': {'noise': (3, 40), 'shipped': (1, 6)}, 'shards': (2, 3),
     'env': {'x64': False}, 'tag': 'noise'},
]
ASSUMPTIONS = [
    'Pooling layers follow the first layer, and strides and tiles agree and '
    'divide the length of the sequence. One initial head. Single precision.',
    'The noise is judged by moments over the samples, at six standard '
    'deviations.',
]


def randomised(rng, shapes, scale=.5):
  """Kernels of independent entries scaled by the number of their inputs."""
  import jax

  def leaf(path, s):
    name = path[-1].key
    shape = np.shape(s)
    a = rng.normal(size=shape)
    if name == 'kernel':
      fan = shape[0] if path[-2].key != 'out' else np.prod(shape[:-1])
      a = a / np.sqrt(fan)
    elif name == 'scale':
      a = 1 + .3 * a
    else:
      a = scale * a
    return a.astype(np.float32)
  return jax.tree_util.tree_map_with_path(leaf, shapes)


# ---------------------------------------------------------------------------
# The network
# ---------------------------------------------------------------------------

# depth, pooling layers, width, window, stride, kv stride, pooled queries in
# every layer, residuals, samples, length after the pooling, batch, scale of
# the initial states
NETWORK = strat.shard_subset([
    (0, (), 4, 3, 2, 4, True, True, 0, 5, 2, 1e-4),
    (1, (), 4, 3, 2, 4, True, True, 0, 5, 2, 1e-4),
    (2, (1,), 4, 5, 4, 8, True, True, 0, 2, 2, 1e-4),
    (3, (1, 2), 4, 3, 2, 8, True, True, 0, 4, 1, 1e-4),
    (3, (2,), 4, 2, 2, 2, False, True, 0, 3, 2, 1e-4),
    (4, (1, 3), 4, 3, 2, 8, False, True, 0, 3, 2, 1e-4),
    (2, (1,), 4, 4, 3, 3, True, False, 0, 2, 2, 1e-4),
    (5, (1, 3), 4, 5, 4, 4, True, True, 0, 1, 1, 1e-4),
    (2, (1,), 4, 3, 2, 2, True, True, 1, 2, 2, 1e-4),
    (3, (1, 2), 4, 3, 2, 4, True, True, 1, 1, 1, 1e-4),
    (2, (1,), 4, 3, 2, 2, True, True, 2, 3, 2, .5),
    (2, (1,), 4, 3, 2, 2, True, True, 2, 2, 2, 1e-4),
    (1, (), 4, 3, 2, 2, True, True, 3, 3, 2, .5),
    ], 2)


# wider, as the gradient of a normalisation of two features is erratic
GRADIENT = strat.shard_subset([
    (0, (), 4, 3, 2, 4, True, True, 0, 5, 2, 1.),
    (2, (1,), 6, 3, 2, 4, True, True, 0, 2, 2, 1.),
    (2, (), 4, 3, 2, 2, True, True, 0, 4, 1, 1.),
    (3, (2,), 4, 2, 2, 2, False, True, 0, 3, 1, 1.),
    (3, (1, 2), 4, 3, 2, 4, True, True, 0, 1, 2, 1.)], 1)


@st.composite
def network_case(draw, configs=NETWORK):
  (depth, pools, width, w, s, kv, every, res, samples, base, batch, prior
   ) = draw(st.sampled_from(configs))
  return {'depth': depth, 'pools': list(pools), 'width': width, 'w': w, 's': s,
          'kv': kv, 'every': every, 'use_residuals': res, 'samples': samples,
          'base': base, 'batch': batch, 'prior': prior,
          'mean_after': samples > 0 and draw(st.booleans()),
          'train': draw(st.sampled_from([None, False, True])),
          'channels': 6, 'sde_layers': 1, 'gridpoints': 3,
          'amp': draw(st.sampled_from([.3, 1., 3.])),
          'seed': draw(strat.seeds)}


def processor(**kw):
  import ml_collections
  return ml_collections.FrozenConfigDict(dict(dict(
      num_samples=0, use_transformer=True, data_size=1, latent_size=4,
      num_gridpoints=3, num_layers=1, num_sde_layers=1, context_size=2,
      hidden_size=3, prior_scale=.1), **kw))


@functools.lru_cache(maxsize=2)
def _network(key):
  import jax
  from swirl_fem.niles import transformer as T
  (depth, pools, width, w, s, kv, every, res, samples, base, batch, prior,
   mean_after, train, channels, sde_layers, gridpoints) = key
  model = T.Model(
      num_layers=1, num_heads=1, depth=depth, width=width, pooling_layers=pools,
      pooling_kernel=(1, w), pooling_strides_q=(1, s),
      initial_kv_pooling_strides=(1, kv), qkv_tile_reps=(s, 1),
      use_residuals=res, pool_q_every_layer=every,
      mean_after_decoder=mean_after, processor_config=processor(
          num_samples=samples, latent_size=width * 2 ** len(pools),
          num_sde_layers=sde_layers, num_gridpoints=gridpoints,
          prior_scale=prior))
  x = np.zeros((batch, base * s ** len(pools), channels), np.float32)
  shapes = jax.eval_shape(model.init, jax.random.PRNGKey(0), x,
                          jax.random.PRNGKey(1))['params']
  kw = {} if train is None else {'train': train}

  def apply(p, x, key):
    # also the output of the latent process
    (y, aux), state = model.apply(
        {'params': p}, x, key, **kw, mutable=['intermediates'],
        capture_intermediates=lambda m, _: isinstance(m, T.LatentSDE))
    return y, aux, state

  def loss(p, x, weights, key):
    y, _ = model.apply({'params': p}, x, key, **kw)
    return (weights * y).sum()
  return shapes, x.shape, jax.jit(apply), jax.jit(jax.grad(loss, (0, 1)))


def network_key(c):
  return (c['depth'], tuple(c['pools']), *(c[k] for k in (
      'width', 'w', 's', 'kv', 'every', 'use_residuals', 'samples', 'base',
      'batch', 'prior', 'mean_after', 'train', 'channels', 'sde_layers',
      'gridpoints')))


def reference(p, x, c, latent=None):
  """The network in float64; `latent` is given its states and returns others."""
  y = nets.dense(p['embedding'], x.astype(np.float64))
  y = y + np.asarray(p['encoder_posembed']['pos_embedding'], np.float64)
  if c['depth']:
    y, skips = nets.encoder(p['multiscale_encoder'], y, c)
    ys = [y] if latent is None else latent(y)
    if not c['mean_after']:
      ys = [np.mean(ys, axis=0)]
    y = np.mean([nets.decoder(p['multiscale_decoder'], y, skips, c)
                 for y in ys], axis=0)
  return nets.dense(p['decoded_patches'], y)


def sensitivity(rng, fun, args, count=4):
  """Changes of fun(args) by changes of the arguments by single precision.

  Normalisations of vectors which nearly vanish amplify them.
  """
  import jax
  base = fun(args)
  blur = lambda a: np.asarray(a, np.float64) * (
      1 + 1e-6 * rng.choice([-1., 1.], size=np.shape(a)))
  return max(np.abs(fun(jax.tree_util.tree_map(blur, args)) - base).max()
             for _ in range(count))


def quiet(params):
  """Without diffusion: exp(-40) multiplies the noise."""
  for name, p in params.items():
    if name == 'diffusion_mlp':
      last = p[f'Dense_{len(p) - 1}']
      last['kernel'] = 0 * last['kernel']
      last['bias'] = 0 * last['bias'] - 40
    elif hasattr(p, 'items'):
      quiet(p)


def run_network(case):
  import jax
  c = case
  shapes, shape, apply, _ = _network(network_key(c))
  rng = core.rng_of(case)
  params = randomised(rng, shapes)
  quiet(params)
  x = (c['amp'] * rng.normal(size=shape)).astype(np.float32)
  got, aux, state = apply(params, x, jax.random.PRNGKey(int(rng.integers(1000))))
  core.check(got.shape == shape, 'shape of the output', got=got.shape)
  q0 = np.zeros(len(x))
  noisy = c['samples'] > 1 and c['prior'] > .01

  def evolve(y):
    q = params['LatentSDE_0']
    d = q[[k for k in q if 'Dynamics' in k][0]]
    return [nets.integrate(
        lambda z, t: nets.dynamics(d, z, t, y, c['sde_layers']), y,
        c['gridpoints'])[0]]

  def latent(y):
    nonlocal q0
    z1, = evolve(y)
    core.close(aux['z0_means'], y.mean(axis=(1, 2)), 'mean latent state',
               rtol=1e-4, scale=1.)
    if c['samples'] > 1:
      q0 = (y ** 2).sum(axis=(1, 2)) / (2 * c['prior'] ** 2)
    if noisy:
      states = np.asarray(state['intermediates']['LatentSDE_0']['__call__'][0][0],
                          np.float64)
      core.check(states.shape == (len(y), c['samples']) + y.shape[1:],
                 'shape of the samples', got=states.shape)
      core.close(aux['z1_means'], states.mean(axis=(1, 2, 3)),
                 'mean latent state at the end', rtol=1e-4, scale=1.)
      return list(np.moveaxis(states, 1, 0))
    core.close(aux['z1_means'], z1.mean(axis=(1, 2)),
               'mean latent state at the end', rtol=2e-3, scale=1.)
    return [z1]

  want = reference(params, x, c, latent if c['samples'] else None)
  # otherwise, the initial states of several samples are drawn with the scale
  # 1e-4
  core.close(got, want, 'output',
             rtol=5e-4 if c['samples'] < 2 or noisy else 5e-3,
             scale=1 + np.abs(want).max(),
             atol=10 * sensitivity(rng, lambda a: reference(
                 a[0], a[1], c, evolve if c['samples'] else None), (params, x)))
  core.close(aux['kl_path'], np.zeros(len(x)), 'KL term of the paths', rtol=0,
             atol=1e-6)
  core.close(aux['kl_q0'], q0, 'KL term of the initial states', rtol=1e-4,
             scale=q0.max() + 1e-6)
  for k in ('kl_path', 'kl_q0', 'z0_means', 'z1_means', 'z1_stds'):
    core.check(np.shape(aux[k]) == (c['batch'],), 'shape of ' + k,
               got=np.shape(aux[k]))


def directional(rng, fun, params, grads, rtol, noise, count=10):
  """The gradient by the parameters, along random directions of some of them.

  fun is the float64 reference of the loss, a function of the parameters.
  """
  import jax
  leaves, tree = jax.tree_util.tree_flatten_with_path(params)
  grads = [np.asarray(g, np.float64)
           for g in jax.tree_util.tree_leaves(grads)]
  names = [jax.tree_util.keystr(k) for k, _ in leaves]
  leaves = [np.asarray(p, np.float64) for _, p in leaves]
  size = np.sqrt(sum((g ** 2).sum() for g in grads)) * noise
  # always also by the input, which is the last one
  chosen = [[len(leaves) - 1]] * 3 + [
      [i] for i in rng.permutation(len(leaves) - 1)[:count]]
  for idx in chosen + [range(len(leaves))]:
    dirs = [rng.normal(size=p.shape) if i in idx else 0 * p
            for i, p in enumerate(leaves)]
    h = 1e-5
    vals = [fun(jax.tree_util.tree_unflatten(
        tree, [p + t * h * v for p, v in zip(leaves, dirs)])) for t in (1, -1)]
    want = (vals[0] - vals[1]) / (2 * h)
    got = sum((g * v).sum() for g, v in zip(grads, dirs))
    norm = np.sqrt(sum((grads[i] ** 2).sum() for i in idx))
    core.check(abs(got - want) <= rtol * max(abs(want), norm) + size,
               'gradient by the parameters', got=got, expected=want, norm=norm,
               size=size, name=names[idx[0]] if len(idx) == 1 else 'all')


def run_gradient(case):
  """Gradients by the parameters and the input, without latent process."""
  import jax
  c = case
  shapes, shape, _, grad = _network(network_key(c))
  rng = core.rng_of(case)
  params = randomised(rng, shapes)
  x = (c['amp'] * rng.normal(size=shape)).astype(np.float32)
  w = rng.normal(size=shape).astype(np.float32)
  gp, gx = grad(params, x, w, jax.random.PRNGKey(0))
  directional(rng, lambda t: float((reference(t['p'], t['x'], c) * w).sum()),
              {'p': params, 'x': x}, {'p': gp, 'x': gx}, 4e-3, 3e-4)


# ---------------------------------------------------------------------------
# The latent state
# ---------------------------------------------------------------------------

# sequence, latent size, layers, steps, samples, batch
LATENT = strat.shard_subset([
    (1, 2, 1, 1, 1, 2), (3, 4, 1, 5, 1, 2), (2, 4, 2, 3, 1, 3),
    (4, 2, 1, 8, 1, 1), (1, 2, 1, 2, 2, 1), (3, 2, 1, 4, 3, 2),
    (2, 4, 2, 3, 2, 2), (2, 2, 0, 6, 2, 3)], 2)


@st.composite
def latent_case(draw, configs=LATENT):
  seq, size, depth, steps, samples, batch = draw(st.sampled_from(configs))
  return {'seq': seq, 'size': size, 'depth': depth, 'steps': steps,
          'samples': samples, 'batch': batch,
          'prior': draw(st.sampled_from([1e-4, 2e-4])),
          'amp': draw(st.sampled_from([.3, 1., 3.])),
          'sigma': draw(st.sampled_from([0., 1e-3, 3e-3])),
          'seed': draw(strat.seeds)}


@functools.lru_cache(maxsize=4)
def _latent(key):
  import jax
  from swirl_fem.niles import transformer as T
  seq, size, depth, steps, samples, batch, prior, kw = key
  model = T.LatentSDE(model_config=processor(
      num_samples=samples, latent_size=size, num_sde_layers=depth,
      num_gridpoints=steps, prior_scale=prior, **dict(kw)))
  shape = (batch, seq, size) if seq else (batch, dict(kw)['data_size'])
  x = np.zeros(shape, np.float32)
  shapes = jax.eval_shape(model.init, jax.random.PRNGKey(0), x,
                          jax.random.PRNGKey(1))['params']
  apply = jax.jit(lambda p, x, key: model.apply({'params': p}, x, key))

  def loss(p, x, w, v, key):
    z, aux = model.apply({'params': p}, x, key)
    return (w * z.mean(axis=1)).sum() + (v * aux['kl_path']).sum()
  return shapes, x.shape, apply, jax.jit(jax.grad(loss, (0, 1)))


def latent_setup(case, grad=False):
  c = case
  key = (c['seq'], c['size'], c['depth'], c['steps'], c['samples'], c['batch'],
         c['prior'], ())
  setup = _latent(key)
  rng = core.rng_of(case)
  params = randomised(rng, setup[0], scale=.3)
  if c['samples'] > 1:
    quiet(params)
    if c['sigma']:
      # nearly without noise, such that the KL term is known
      for p in params.values():
        m = p['diffusion_mlp']
        m[f'Dense_{len(m) - 1}']['bias'] += np.float32(40 + np.log(c['sigma']))
  x = (c['amp'] * rng.normal(size=setup[1])).astype(np.float32)
  return setup, rng, params, x


def latent_reference(params, x, c, ctx=None):
  """Final states and KL terms of the paths of the mean initial states."""
  z0 = x.astype(np.float64)
  d = params[[k for k in params if 'Dynamics' in k][0]]
  return nets.integrate(
      lambda z, t: nets.dynamics(d, z, t, z0, c['depth']), z0, c['steps'])


def run_latent(case):
  """Without diffusion; or with one sample, the integral of the drift."""
  import jax
  c = case
  (_, shape, apply, _), rng, params, x = latent_setup(case)
  got, aux = apply(params, x, jax.random.PRNGKey(int(rng.integers(1000))))
  z0 = x.astype(np.float64)
  z1, kl = latent_reference(params, x, c)
  core.check(got.shape == (c['batch'], c['samples']) + shape[1:],
             'shape of the samples', got=got.shape)
  for i in range(c['samples']):
    core.close(got[:, i], z1, 'sample of the latent state',
               rtol=2e-4 if c['samples'] == 1 else
               100 * (c['prior'] + c['sigma']), scale=1 + np.abs(z1).max())
  q0 = (z0 ** 2).sum(axis=(1, 2)) / (2 * c['prior'] ** 2)
  if c['samples'] == 1:
    q0, kl = 0 * q0, 0 * q0
  core.close(aux['kl_q0'], q0, 'KL term of the initial states', rtol=1e-4,
             scale=q0.max() + 1e-6)
  core.close(aux['kl_path'], kl, 'KL term of the paths',
             rtol=50 * (c['prior'] + c['sigma']), scale=kl.max() + 1e-4)
  core.close(aux['z0_means'], z0.mean(axis=(1, 2)), 'mean of the initial state',
             rtol=1e-5, scale=c['amp'])


# many steps, as the gradient is the one of the continuous process
LATENT_GRADIENT = strat.shard_subset([
    (2, 6, 1, 64, 1, 2), (2, 6, 1, 64, 2, 2), (1, 8, 1, 64, 2, 1),
    (3, 6, 1, 64, 2, 1)], 1)


def run_latent_gradient(case):
  """Gradients of states and KL terms by the parameters, nearly noiseless."""
  import jax
  # slow dynamics
  c = dict(case, sigma=case['sigma'] or 1e-3, amp=max(case['amp'], 1.))
  (_, shape, _, grad), rng, params, x = latent_setup(c)
  for p in params.values():
    for name in p:
      if name.endswith('decoded_patches'):
        p[name]['kernel'] *= np.float32(.1)
  w = rng.normal(size=shape).astype(np.float32)
  if c['samples'] > 1 and rng.random() < .5:
    w = 0 * w
  v = rng.uniform(.5, 1.5, size=len(x)).astype(np.float32)
  s = np.float32(c['sigma'] ** 2 if c['samples'] > 1 else 0)
  gp, gx = grad(params, x, w, v * s, jax.random.PRNGKey(
      int(rng.integers(1000))))

  def loss(t):
    z1, kl = latent_reference(t['p'], t['x'], c)
    return float((z1 * w).sum() + (kl * v * s).sum())
  skip = 'diffusion_mlp'
  def drop(t):
    return {k: {n: q for n, q in p.items() if n != skip} for k, p in t.items()}
  rest = {k: p[skip] for k, p in params.items()}
  directional(rng, lambda t: loss({'x': t['x'], 'p': {
      k: dict(p, **{skip: rest[k]}) for k, p in t['p'].items()}}),
              {'p': drop(params), 'x': x}, {'p': drop(gp), 'x': gx}, .25, 2e-3)


# batch, samples, sequence, latent size, steps, so that there are many samples
NOISE = strat.shard_subset([
    (16, 16, 2, 4, 5), (8, 32, 3, 4, 8), (2, 128, 1, 4, 3), (4, 64, 2, 4, 2),
    (64, 4, 2, 4, 16), (1, 256, 3, 2, 6)], 1)


@st.composite
def noise_case(draw):
  batch, samples, seq, size, steps = draw(st.sampled_from(NOISE))
  return {'batch': batch, 'samples': samples, 'seq': seq, 'size': size,
          'steps': steps, 'prior': draw(st.sampled_from([.1, .5])),
          'sigma': draw(st.sampled_from([.05, .3, 1., 2.])),
          'seed': draw(strat.seeds)}


def run_noise(case):
  """Constant drifts and diffusion: a Brownian motion with drift, and its KL."""
  import jax
  c = case
  B, S, Q, L = c['batch'], c['samples'], c['seq'], c['size']
  key = (Q, L, 1, c['steps'], S, B, c['prior'], ())
  shapes, shape, apply, _ = _latent(key)
  rng = core.rng_of(case)
  params = randomised(rng, shapes)
  d = params[[k for k in params if 'Dynamics' in k][0]]
  drift = {}
  for name in ('posterior_drift', 'prior_drift'):
    q = d[f'{name}_decoded_patches']
    q['kernel'] = 0 * q['kernel']
    drift[name] = q['bias'].astype(np.float64)
  last = d['diffusion_mlp']
  last = last[f'Dense_{len(last) - 1}']
  last['kernel'] = 0 * last['kernel']
  last['bias'] = 0 * last['bias'] + np.float32(np.log(c['sigma']))
  x = rng.normal(size=shape).astype(np.float32)
  k1, k2 = rng.integers(0, 2 ** 31, size=2)
  got, aux = apply(params, x, jax.random.PRNGKey(int(k1)))
  b1, b2 = drift['posterior_drift'], drift['prior_drift']
  kl = .5 * Q * (((b1 - b2) / c['sigma']) ** 2).sum()
  core.close(aux['kl_path'], np.full(B, kl), 'KL term of the paths', rtol=1e-4,
             scale=kl + 1e-6)
  z0 = x.astype(np.float64)
  q0 = (z0 ** 2).sum(axis=(1, 2)) / (2 * c['prior'] ** 2)
  core.close(aux['kl_q0'], q0, 'KL term of the initial states', rtol=1e-4,
             scale=q0.max())
  w = np.asarray(got, np.float64) - (z0 + b1)[:, None]
  total = np.sqrt(c['prior'] ** 2 + c['sigma'] ** 2)
  w = w / total
  # moments of all entries, and correlations over each of the axes
  n = w.size
  core.check(abs(w.mean()) <= 6 / np.sqrt(n), 'mean of the noise',
             got=w.mean())
  core.check(abs((w ** 2).mean() - 1) <= 6 * np.sqrt(2 / n),
             'variance of the noise', got=(w ** 2).mean(), sigma=c['sigma'],
             prior=c['prior'])
  for axis, name in enumerate(['windows', 'samples', 'tokens', 'channels']):
    m = w.shape[axis]
    if m > 1:
      # the mean over an axis of independent values has the variance 1 / m
      v = (w.mean(axis=axis) ** 2) * m
      core.check(abs(v.mean() - 1) <= 8 * np.sqrt(2 / v.size),
                 f'independent noise of the {name}', got=v.mean())
      # independent of the neighbour
      r = (w * np.roll(w, 1, axis=axis)).mean()
      core.check(abs(r) <= 6 / np.sqrt(n) * (2 if m == 2 else 1),
                 f'uncorrelated noise of the {name}', got=r)
  again, _ = apply(params, x, jax.random.PRNGKey(int(k1)))
  core.same(np.asarray(again), np.asarray(got), 'the same key')
  other, _ = apply(params, x, jax.random.PRNGKey(int(k2)))
  r = ((np.asarray(other, np.float64) - (z0 + b1)[:, None]) / total * w).mean()
  core.check(k1 == k2 or abs(r) <= 6 / np.sqrt(n),
             'independent noise of another key', got=r)


# latent, context, hidden, layers, sde layers, steps, state, batch
PLAIN = strat.shard_subset([
    (2, 3, 4, 1, 2, 3, 5, 2), (3, 3, 3, 2, 1, 5, 4, 3), (1, 1, 2, 0, 1, 1, 3, 1),
    (4, 2, 5, 2, 3, 4, 6, 2)], 1)


@st.composite
def plain_case(draw):
  latent, context, hidden, depth, sde, steps, state, batch = draw(
      st.sampled_from(PLAIN))
  return {'latent': latent, 'context': context, 'hidden': hidden,
          'depth': depth, 'sde': sde, 'steps': steps, 'state': state,
          'batch': batch, 'prior': draw(st.sampled_from([.1, 1.5])),
          'amp': draw(st.sampled_from([.3, 1., 3.])),
          'tiny': draw(st.integers(0, 4)) == 0,
          'seed': draw(strat.seeds)}


def run_plain(case):
  """Encoder, drift with a context, and decoder without attention."""
  import jax
  c = case
  key = (0, c['latent'], c['sde'], c['steps'], 1, c['batch'], c['prior'],
         (('use_transformer', False), ('data_size', c['state']),
          ('context_size', c['context']), ('hidden_size', c['hidden']),
          ('num_layers', c['depth'])))
  shapes, shape, apply, _ = _latent(key)
  rng = core.rng_of(case)
  params = randomised(rng, shapes)
  drifts = params[[k for k in params if k.startswith('sde_net')][0]]
  L = c['latent']
  if c['tiny']:
    for i in range(L):
      last = drifts['diffusion_mlp'][f'mlps_{i}']
      last = last[f'Dense_{len(last) - 1}']
      last['bias'] = last['bias'] - 60
  x = (c['amp'] * rng.normal(size=shape)).astype(np.float32)
  got, aux = apply(params, x, jax.random.PRNGKey(3))
  h = nets.layers(params['sde_encoder_mlp'], x.astype(np.float64), nets.gelu,
                  nets.gelu)
  z0, logs, ctx = h[:, :L], h[:, L:2 * L], h[:, 2 * L:]
  s = np.exp(logs)
  q0 = (np.log(c['prior'] / s) + (s ** 2 + z0 ** 2) / (2 * c['prior'] ** 2)
        - .5).sum(axis=1)
  core.close(aux['kl_q0'], q0, 'KL term of the initial states', rtol=1e-4,
             scale=np.abs(q0).max() + 1)

  def f(z, t):
    del t
    post = nets.layers(drifts['post_drift_mlp']['mlp'],
                       np.concatenate([z, ctx], axis=1), nets.gelu, np.tanh)
    prior = nets.layers(drifts['prior_drift_mlp']['mlp'], z, nets.gelu, np.tanh)
    diff = np.concatenate([
        nets.layers(drifts['diffusion_mlp'][f'mlps_{i}'], z[:, i:i + 1],
                    nets.gelu, np.exp) for i in range(L)], axis=1)
    return post, prior, diff
  z1, kl = nets.integrate(f, z0, c['steps'])
  core.close(aux['kl_path'], kl, 'KL term of the paths', rtol=1e-3,
             scale=kl.max() + 1e-3)
  want = nets.layers(params['sde_decoder_mlp'], z1, nets.gelu, nets.gelu)
  core.check(got.shape == (c['batch'], 1, c['state']), 'shape of the samples',
             got=got.shape)
  core.close(got[:, 0], want, 'decoded state', rtol=2e-4,
             scale=1 + np.abs(want).max())


# ---------------------------------------------------------------------------
# The shipped configuration
# ---------------------------------------------------------------------------


@st.composite
def shipped_case(draw):
  return {'samples': draw(st.sampled_from([0, 1, 2])),
          'pools': draw(st.sampled_from([[1]])),
          'width': draw(st.sampled_from([2, 4])),
          'elements': draw(st.sampled_from([8, 16])),
          'seed': draw(strat.seeds)}


def run_shipped(case):
  """Models of the shipped configuration start without a correction."""
  import jax
  from swirl_fem.niles import train
  from swirl_fem.niles.config import niles
  c = case
  rng = core.rng_of(case)
  cfg = niles.get_config()
  # complete as it is
  train.create_model(cfg.model_name, cfg.model)
  m = cfg.model
  m.depth, m.width, m.pooling_layers = 2, c['width'], tuple(c['pools'])
  p = m.processor_config
  p.num_samples, p.latent_size = c['samples'], c['width'] * 2
  p.num_sde_layers, p.num_gridpoints = 1, 2
  m.mean_after_decoder = c['samples'] > 0
  model = train.create_model(cfg.model_name, m)
  params = train.initialized(jax.random.PRNGKey(int(rng.integers(1000))),
                             c['elements'], 6, model)
  x = rng.normal(size=(2, c['elements'], 6)).astype(np.float32)
  got, aux = jax.jit(lambda p, x, key: model.apply(
      {'params': p}, x, key, train=True))(params, x, jax.random.PRNGKey(5))
  core.check(np.abs(got).max() <= 1e-4, 'no correction before the training',
             got=np.abs(got).max())
  core.check(got.shape == x.shape, 'shape of the output', got=got.shape)
  for k in ('kl_path', 'kl_q0', 'z0_means', 'z1_means', 'z1_stds'):
    core.check(np.shape(aux[k]) == (2,) and np.all(np.isfinite(aux[k])),
               'finite ' + k, got=np.asarray(aux[k]))


SUBS = {
    'network': core.Sub(
        network_case(), run_network,
        lambda c: [f"depth={c['depth']}", f"pools={len(c['pools'])}",
                   f"samples={c['samples']}"],
        lambda c: bool(c['pools']), 'the model against float64 numpy'),
    'gradient': core.Sub(
        network_case(GRADIENT), run_gradient,
        lambda c: [f"depth={c['depth']}", f"pools={len(c['pools'])}"],
        lambda c: bool(c['pools']),
        'gradients against differences of the float64 network'),
    'latent gradient': core.Sub(
        latent_case(LATENT_GRADIENT), run_latent_gradient,
        lambda c: [f"samples={c['samples']}"], lambda c: c['samples'] > 1,
        'gradients of the latent process in the limit of many steps'),
    'latent': core.Sub(
        latent_case(), run_latent, lambda c: [f"samples={c['samples']}"],
        lambda c: c['seq'] > 1 or c['samples'] > 1,
        'latent state without noise against the integral of the drift'),
    'plain': core.Sub(
        plain_case(), run_plain, lambda c: [f"latent={c['latent']}"],
        lambda c: c['latent'] > 1, 'latent state without attention'),
    'noise': core.Sub(
        noise_case(), run_noise, lambda c: [f"sigma={c['sigma']}"],
        lambda c: c['batch'] > 1,
        'moments and correlations of the noise, KL terms in closed form'),
    'shipped': core.Sub(
        shipped_case(), run_shipped, lambda c: [f"samples={c['samples']}"],
        lambda c: c['samples'] > 0, 'models of the shipped configuration'),
}
