"""P29: the training loss is that of the solver rolled out with the model."""

import numpy as np
from hypothesis import strategies as st

from vf import core, strat
from vf.closure import make_sem, reference, rollout

RULE = ('A case is non-trivial if the rollout has several steps or the batch '
        'has several windows.')
PLAN = [
    {'subs': {'loss': (6, 40)}, 'shards': (5, 6), 'env': {}},
    {'subs': {'step': (4, 30)}, 'shards': (5, 6), 'env': {'devices': 2},
     'tag': 'step'},
    {'subs': {'keys': (3, 20), 'eval': (2, 20)}, 'shards': (4, 6), 'env': {'devices': 2},
     'tag': 'eval'},
]
ASSUMPTIONS = [
    'The model is a smooth function of its inputs and parameters, without '
    'dropout and noise. Double precision.',
    'Permuted elements need the 12 x 12 grid for which the permutation is '
    'made.']

# grid, order, time order, permuted, steps, pushforward steps, batch
LOSS = strat.shard_subset([
    (3, 3, 2, False, 2, 0, 2), (12, 2, 2, True, 1, 0, 2),
    (2, 4, 3, False, 3, 0, 1), (2, 3, 2, False, 3, 0, 3),
    (12, 2, 3, True, 2, 0, 1), (4, 2, 3, False, 1, 0, 3)], 1)
# elements per side and order, so that no bin of the spectrum is empty; time
# order, permuted, steps, batch
EVAL = strat.shard_subset([
    (12, 2, 2, True, 9, 1), (6, 4, 2, False, 4, 2), (8, 3, 3, False, 9, 1),
    (12, 2, 3, True, 3, 2)], 1)
STEP = strat.shard_subset([
    (2, 3, 2, False, 2, 0, 2), (12, 2, 2, True, 1, 0, 1),
    (2, 3, 2, False, 3, 1, 1), (3, 2, 3, False, 2, 1, 2),
    (2, 4, 2, False, 3, 2, 1), (12, 2, 2, True, 2, 1, 1)], 1)


@st.composite
def case(draw, configs):
  grid, order, k, perm, steps, push, batch = draw(st.sampled_from(configs))
  return {'grid': grid, 'order': order, 'time_order': k, 'perm': perm,
          'steps': steps, 'push': push, 'batch': batch,
          'extra': draw(st.integers(0, 2)),
          'dt': .01, 're': 100., 'alpha': .05,
          'kl': draw(st.sampled_from([0., 1., .3])),
          'amp': draw(st.sampled_from([.1, 1.])),
          'seed': draw(strat.seeds)}


def config(c):
  import ml_collections
  n = c['order'] + 1
  return ml_collections.FrozenConfigDict(dict(
      time_order=c['time_order'], num_steps=c['steps'],
      eval_num_steps=c['steps'], num_nodes=(c['grid'] * c['order'] + 1) ** 2,
      permute_elements=c['perm'], num_elements=c['grid'] ** 2,
      num_channels=2 * n * n, num_pushforward_steps=c['push'],
      drag_coeff=.5, reynolds_number=c['re'], dt=c['dt'], alpha=c['alpha']))


def model(params, x):
  """Of the inputs in the order given to the model; (batch, elements, channels)."""
  import jax.numpy as jnp
  x = x.astype(params['W'].dtype)
  y = jnp.tanh(x @ params['W'] + params['b'])
  aux = {'kl_q0': jnp.mean(x ** 2, axis=(1, 2)) * params['k'][0],
         'kl_path': jnp.mean(y ** 2, axis=(1, 2)) * params['k'][1],
         'z0_means': jnp.mean(x, axis=(1, 2)),
         'z1_means': jnp.mean(y, axis=(1, 2)),
         'z1_stds': jnp.mean(jnp.abs(y), axis=(1, 2))}
  return y, {k: v.astype(jnp.float32) for k, v in aux.items()}


def apply(variables, inputs, *, z_rng, train, rngs=None):
  del z_rng, train, rngs
  return model(variables['params'], inputs)


_COMPILED = {}


def compiled(key, make):
  if key not in _COMPILED:
    _COMPILED.clear()
    _COMPILED[key] = make()
  return _COMPILED[key]


def key_of(c):
  return tuple(c[k] for k in ('grid', 'order', 'time_order', 'perm', 'steps',
                              'push', 'batch', 'extra'))


def data(c, sem, rng, batch):
  x = np.asarray(sem.velocity.mesh.node_coords)
  P = sem.pressure.pspace.mesh.num_nodes
  T = c['time_order'] + c['steps'] + c['extra']
  u = np.zeros((batch, T, len(x), 2))
  for w in range(batch):
    a, b = rng.integers(1, 3, size=2) * 2 * np.pi
    s, t, ds, dt = rng.uniform(0, 2 * np.pi, size=4)
    for i in range(T):
      X, Y = a * x[:, 0] + s + .05 * ds * i, b * x[:, 1] + t + .05 * dt * i
      u[w, i] = np.stack([b * np.cos(X) * np.sin(Y),
                          -a * np.sin(X) * np.cos(Y)], axis=-1) / max(a, b)
  p = .1 * rng.normal(size=(batch, T, P))
  C = 2 * (c['order'] + 1) ** 2
  params = {'W': c['amp'] * rng.normal(size=(C, C)) / np.sqrt(C),
            'b': c['amp'] * rng.normal(size=(c['grid'] ** 2, C)),
            'k': rng.uniform(.5, 2, size=2)}
  return u, p, params


def run_loss(case):
  """The loss and its parts, against a plain rollout."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  c = case
  sem = make_sem(c['grid'], c['order'])
  rng = core.rng_of(case)
  u, p, params = data(c, sem, rng, c['batch'])
  cfg = config(c)

  def make():
    f = jax.jit(lambda params, u, p, kl: train.compute_mse_loss(
        {'u': u, 'p': p}, params, apply, jax.random.PRNGKey(0), kl, sem, None,
        None, cfg, True))
    g = jax.jit(lambda params, u, p, kl: reference(c, sem, params, u, p, kl, model))
    return f, g
  f, g = compiled(key_of(c), make)
  args = jax.tree_util.tree_map(jnp.asarray, (params, u, p, c['kl']))
  loss, aux = f(*args)
  want, (mse, kl, last) = g(*args)
  mse = np.asarray(mse)
  # errors of the order of the tolerance of the solver, in each value
  tol = 1e-5 * (np.sqrt(mse.max() * u[0, 0].size) + 1e-3) + 1e-6 * mse.max()
  core.close(aux['mse'], mse, 'errors of the steps', rtol=0, atol=tol)
  core.close(loss, want, 'loss', rtol=1e-5, scale=abs(float(want)),
             atol=tol * c['steps'])
  core.close(aux['kl_q0'] + aux['kl_path'], kl, 'KL terms', rtol=1e-4,
             scale=float(kl))
  core.close(aux['kl'], c['kl'] * kl, 'weighted KL terms', rtol=1e-4,
             scale=float(kl))
  for k in ('z0_means', 'z1_means', 'z1_stds'):
    core.close(aux[k], np.abs(np.asarray(last[k])).mean(), k, rtol=1e-4,
               scale=1.)


def run_step(case):
  """A training step on two devices: gradient, parameters and metrics."""
  import jax
  import jax.numpy as jnp
  import optax
  from flax import jax_utils
  from flax.training import train_state
  from swirl_fem.niles import train
  c = case
  sem = make_sem(c['grid'], c['order'])
  rng = core.rng_of(case)
  D = 2
  u, p, params = data(c, sem, rng, D * c['batch'])
  cfg = config(c)
  rate = lambda step: .1 / (step + 1)
  penalty = lambda step: .3 * (step + 1)

  def make():
    f = jax.pmap(lambda state, u, p, key: train.train_step(
        state, {'u': u, 'p': p}, learning_rate_fn=rate, kl_penalty_fn=penalty,
        sem=sem, train_rng=key, config=cfg), axis_name='batch')
    g = jax.jit(jax.value_and_grad(lambda params, u, p, kl: reference(
        c, sem, params, u, p, kl, model), has_aux=True))
    return f, g, optax.sgd(1.)
  f, g, tx = compiled(key_of(c), make)
  params = jax.tree_util.tree_map(jnp.asarray, params)
  state = train_state.TrainState.create(apply_fn=apply, params=params, tx=tx)
  first = int(rng.integers(0, 4))
  state = state.replace(step=first)
  B = c['batch']
  split = lambda a: jnp.asarray(a.reshape((D, B) + a.shape[1:]))
  new, metrics = f(jax_utils.replicate(state), split(u), split(p),
                   jax.random.split(jax.random.PRNGKey(1), D))
  kl = .3 * (first + 1)
  (want, (mse, kls, _)), grads = g(params, jnp.asarray(u), jnp.asarray(p), kl)
  core.same(np.asarray(new.step), np.full(D, first + 1), 'number of the step')
  for name in params:
    G = np.asarray(grads[name])
    for i in range(D):
      core.close(np.asarray(params[name]) - np.asarray(new.params[name])[i], G,
                 f'gradient of the loss by {name}', rtol=1e-4,
                 scale=np.abs(G).max() + 1e-4 * np.sqrt(float(want)))
  for i in range(D):
    get = lambda k: np.asarray(metrics[k])[i]
    core.close(get('loss'), want, 'loss', rtol=1e-5,
               atol=1e-5 * np.sqrt(float(want) * u[0, 0].size))
    core.close(get('mse'), np.asarray(mse).mean(), 'mean error', rtol=1e-5,
               atol=1e-5 * np.sqrt(float(want) * u[0, 0].size))
    core.close(get('kl'), kl * kls, 'weighted KL terms', rtol=1e-4,
               scale=float(kl * kls))
    core.close(get('learning_rate'), rate(first), 'learning rate', rtol=1e-6)
    core.close(get('kl_penalty'), kl, 'penalty', rtol=1e-6)


# ---------------------------------------------------------------------------
# Random keys
# ---------------------------------------------------------------------------


@st.composite
def keys_case(draw):
  return {'grid': 2, 'order': 2, 'time_order': 2, 'perm': False, 'steps': 2,
          'push': draw(st.sampled_from([0])), 'batch': 1, 'extra': 0,
          'dt': .01, 're': 100., 'alpha': .05, 'amp': .1,
          'first': draw(st.integers(0, 5)), 'seed': draw(strat.seeds)}


def noisy_apply(variables, inputs, *, z_rng, train, rngs=None):
  """Reports draws of the two keys through the auxiliary outputs."""
  import jax
  import jax.numpy as jnp
  del variables
  B = inputs.shape[0]
  z = jax.random.uniform(z_rng, (), jnp.float32)
  d = jax.random.uniform(rngs['dropout'], (), jnp.float32)
  full = lambda v: jnp.full((B,), v, jnp.float32)
  return .01 * jax.random.normal(z_rng, inputs.shape, jnp.float32), {
      'kl_q0': full(z), 'kl_path': full(d), 'z0_means': full(z),
      'z1_means': full(d), 'z1_stds': full(1. if train else 0.)}


def run_keys(case):
  """Every step of the solver and of the training draws its own noise."""
  import jax
  import jax.numpy as jnp
  import optax
  from flax import jax_utils
  from flax.training import train_state
  from swirl_fem.niles import train
  c = case
  sem = make_sem(c['grid'], c['order'])
  rng = core.rng_of(case)
  u, p, params = data(c, sem, rng, 2)
  cfg = config(c)
  f = compiled(('keys',) + key_of(c), lambda: jax.pmap(
      lambda state, u, p, key: train.train_step(
          state, {'u': u, 'p': p}, learning_rate_fn=lambda s: 0.,
          kl_penalty_fn=lambda s: 0., sem=sem, train_rng=key, config=cfg),
      axis_name='batch'))
  state = train_state.TrainState.create(
      apply_fn=noisy_apply, params={'k': jnp.zeros(2)}, tx=optax.sgd(0.))
  split = lambda a: jnp.asarray(a.reshape((2, 1) + a.shape[1:]))
  key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))

  def draws(step, key):
    new, m = f(jax_utils.replicate(state.replace(step=step)), split(u),
               split(p), jnp.stack([key, key]))
    del new
    m = {k: float(np.asarray(v)[0]) for k, v in m.items()}
    core.check(m['z1_stds'] == 1, 'the model is told that it is trained')
    # those of the first and of the second step of the solver
    return [m['kl_q0'] - m['z0_means'], m['z0_means'],
            m['kl_path'] - m['z1_means'], m['z1_means']], m['loss']
  a, la = draws(c['first'], key)
  again, lagain = draws(c['first'], key)
  core.check(a == again and la == lagain, 'the same step repeats its noise',
             first=a, second=again)
  b, _ = draws(c['first'] + 1, key)
  other, _ = draws(c['first'], jax.random.PRNGKey(int(rng.integers(2 ** 31))))
  v = a + b + other
  for i in range(len(v)):
    for j in range(i):
      core.check(abs(v[i] - v[j]) > 1e-6, 'independent draws', values=v, i=i,
                 j=j, order='steps of the solver, keys, steps of training')


# ---------------------------------------------------------------------------
# Evaluation
# ---------------------------------------------------------------------------


@st.composite
def eval_case(draw):
  grid, order, k, perm, steps, batch = draw(st.sampled_from(EVAL))
  return {'grid': grid, 'order': order, 'time_order': k, 'perm': perm,
          'steps': steps, 'push': 0, 'batch': batch,
          'extra': draw(st.integers(0, 1)), 'dt': .002, 're': 100.,
          'alpha': draw(st.sampled_from([.05])),
          'amp': draw(st.sampled_from([.1, 1.])),
          'kl': draw(st.sampled_from([0., .3])),
          'noise': draw(st.sampled_from([.05, .3])),
          'seed': draw(strat.seeds)}


def uniform_values(c, sem, u):
  """Values on the lattice of the equispaced nodes, (n, n, 2)."""
  r, g = c['order'], c['grid']
  mesh = sem.velocity.mesh
  gll = np.asarray(mesh.gridpoints_1d.node_values, np.float64)
  t = np.linspace(-1, 1, r + 1)
  L = np.ones((r + 1, r + 1))
  for j in range(r + 1):
    for i in range(r + 1):
      if i != j:
        L[:, j] *= (t - gll[i]) / (gll[j] - gll[i])
  elements = np.asarray(mesh.elements).reshape(-1, r + 1, r + 1)
  x = np.asarray(mesh.node_coords)
  n = g * r + 1
  out = np.zeros((n, n, u.shape[-1]))
  for e in elements:
    # the nodal lattice of the element, along the axes of the domain
    vals = np.einsum('ai,bj,ijc->abc', L, L, u[e])
    pos = np.rint(np.einsum('ai,bj,ijc->abc', L, L, x[e]) * (n - 1)).astype(int)
    out[pos[..., 0], pos[..., 1]] = vals
  return out


def energies(values):
  """Energies of the bins of the wave numbers."""
  n = len(values)
  e = .5 * (np.abs(np.fft.fftn(values, axes=(0, 1))) ** 2).sum(axis=-1)
  return np.fft.fftshift(e)


def binned(e):
  n = len(e)
  f = np.fft.fftshift(np.fft.fftfreq(n, 1 / n))
  k = np.sqrt(f[:, None] ** 2 + f[None] ** 2)
  edges = np.linspace(0, k.max(), 20)
  return np.array([e[(k >= a) & (k < b)].sum()
                   for a, b in zip(edges[:-2], edges[1:-1])])


def run_eval(case):
  import jax
  import jax.numpy as jnp
  import optax
  from flax import jax_utils
  from flax.training import train_state
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.niles import train
  c = case
  sem = make_sem(c['grid'], c['order'])
  rng = core.rng_of(case)
  D = 2
  u, p, params = data(c, sem, rng, D * c['batch'])
  # broadband, and periodic
  x = np.asarray(sem.velocity.mesh.node_coords)
  _, inverse = np.unique(np.rint(x % 1. % (1 - 1e-9) * 1e6), axis=0,
                         return_inverse=True)
  noise = rng.normal(size=u.shape[:2] + (inverse.max() + 1, 2))
  u = u + c['noise'] * noise[:, :, inverse.reshape(-1)]
  cfg = config(c)

  def make():
    uniform = refine_premesh(
        premesh_commons.unit_cube_mesh(c['grid'], ndim=2, periodic_dims=(0, 1)),
        Nodes1D.create(num_points=c['order'] + 1,
                       node_type=NodeType.NEWTON_COTES)).finalize()
    first = premesh_commons.unit_cube_mesh(c['grid'] * c['order'],
                                           ndim=2).finalize()
    perm = train.transfer_perm(uniform, first)
    f = jax.pmap(lambda state, u, p, key: train.eval_step(
        state, {'u': u, 'p': p}, kl_penalty_fn=lambda s: c['kl'] * (s + 1),
        sem=sem, uniform_mesh=uniform, first_order_perm=perm, eval_rng=key,
        config=cfg), axis_name='batch')
    one = dict(c, steps=1, push=0)
    g = jax.jit(lambda params, u, p: rollout(one, sem, params, u, p, model,
                                             pressure=True))
    return f, g
  f, g = compiled(('eval', c['kl']) + key_of(c), make)
  params = jax.tree_util.tree_map(jnp.asarray, params)
  state = train_state.TrainState.create(
      apply_fn=eval_apply, params=params, tx=optax.sgd(1.))
  first = int(rng.integers(0, 4))
  state = state.replace(step=first)
  split = lambda a: jnp.asarray(a.reshape((D, c['batch']) + a.shape[1:]))
  m = f(jax_utils.replicate(state), split(u), split(p),
        jax.random.split(jax.random.PRNGKey(1), D))
  m = {k: np.asarray(v)[0] for k, v in m.items()}
  k, steps = c['time_order'], c['steps']
  mse, kls, tke = np.zeros(steps), 0., []
  for w in range(len(u)):
    us, ps = jnp.asarray(u[w, :k]), jnp.asarray(p[w, :k])
    spectra = {'pred': 0., 'target': 0.}
    for i in range(steps):
      un, pn, kl, _ = g(params, us, ps)
      kls += float(kl) / len(u)
      us = jnp.concatenate([us[1:], un])
      ps = jnp.concatenate([ps[1:], pn])
      target = u[w, k + i]
      mse[i] += .5 * ((np.asarray(un[0]) - target) ** 2).sum() / len(u)
      if i >= steps // 2:
        spectra['pred'] += energies(uniform_values(c, sem, np.asarray(un[0])))
        spectra['target'] += energies(uniform_values(c, sem, target))
    s = {n: binned(e / (steps - steps // 2)) for n, e in spectra.items()}
    core.check(min(s['target'].min(), s['pred'].min()) > 0, 'harness: bins')
    tke.append(((np.log(s['pred']) - np.log(s['target'])) ** 2).sum())
  tol = 1e-5 * (np.sqrt(mse.max() * u[0, 0].size) + 1e-3) + 1e-6 * mse.max()
  kl = c['kl'] * (first + 1) * kls
  core.close(m['mse'], mse.mean(), 'mean error', rtol=0, atol=tol)
  core.close(m['mse@1to8'], mse[:8].mean(), 'error of the first steps', rtol=0,
             atol=tol)
  if steps >= 8:
    core.close(m['mse@8'], mse[7], 'error of the eighth step', rtol=0, atol=tol)
  core.close(m['kl'], kl, 'weighted KL terms', rtol=1e-4, scale=kl + 1e-9)
  core.close(m['loss'], mse.sum() + kl, 'loss', rtol=1e-5, scale=kl,
             atol=tol * steps)
  core.close(m['tke_err'], np.mean(tke), 'error of the spectrum', rtol=1e-3,
             scale=1 + np.mean(tke))


def eval_apply(variables, inputs, *, z_rng, train):
  """The evaluation provides no key for dropout."""
  assert not train
  del z_rng
  return model(variables['params'], inputs)


def labels(c):
  return [f"grid={c['grid']}", f"order={c['order']}", f"steps={c['steps']}",
          f"time_order={c['time_order']}"] + ['permuted'] * c['perm'] + [
              'pushforward'] * (c['push'] > 0)


def nontrivial(c):
  return c['steps'] > 1 or c['batch'] > 1


SUBS = {
    'loss': core.Sub(case(LOSS), run_loss, labels, nontrivial,
                     'loss against a plain rollout'),
    'step': core.Sub(case(STEP), run_step, labels, nontrivial,
                     'training step on two devices'),
    'keys': core.Sub(keys_case(), run_keys, labels, nontrivial,
                     'draws of the keys given to the model'),
    'eval': core.Sub(eval_case(), run_eval, labels, nontrivial,
                     'evaluation against a plain rollout and its spectrum'),
}
