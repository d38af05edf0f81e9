"""P31: training runs take the steps of their schedule, and resume."""

import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import closure, core, strat

RULE = ('A case is non-trivial if there are several arrays of parameters, or '
        'the run is resumed.')
PLAN = [
    {'subs': {'run': (1, 6)}, 'shards': (4, 6), 'env': {'devices': 2}},
    {'subs': {'noise': (1, 6)}, 'shards': (3, 3), 'env': {'devices': 2},
     'tag': 'noise'},
    {'subs': {'splits': (2, 6)}, 'shards': (7, 7), 'env': {'devices': 2},
     'tag': 'splits'},
    {'subs': {'optimizer': (15, 150), 'checkpoint': (8, 80),
              'schedule': (40, 400)}, 'shards': (1, 2),
     'env': {}, 'tag': 'state'},
]
ASSUMPTIONS = [
    'The runs see all windows in each batch, or windows which are all the same, '
    'so that the shuffling of the windows does not change the batches.',
    'The network of the runs has no attention layers, whose outputs are those '
    'of P30.']


# ---------------------------------------------------------------------------
# Optimizer and checkpoints
# ---------------------------------------------------------------------------


class Toy:
  """A model with the interface used to create the state of the training."""

  def __init__(self, shapes):
    import jax.numpy as jnp
    self.shapes, self.dtype = shapes, jnp.float32

  def init(self, rngs, inputs, z_rng):
    import jax
    import jax.numpy as jnp
    del z_rng
    key = rngs['params']
    p = {}
    for i, s in enumerate(self.shapes):
      p[f'w{i}'] = jax.random.normal(jax.random.fold_in(key, i), s, jnp.float32)
    p['in'] = jnp.zeros(inputs.shape)
    return {'params': p}

  def apply(self, *args, **kwargs):
    raise NotImplementedError


@st.composite
def optimizer_case(draw):
  shape = st.lists(st.integers(1, 3), min_size=0, max_size=2)
  return {'shapes': draw(st.lists(shape, min_size=1, max_size=3)),
          'elements': draw(st.integers(1, 3)), 'channels': draw(
              st.integers(1, 3)),
          'clip': draw(st.sampled_from([None, .01, 1., 1.])),
          'decay': draw(st.sampled_from([0., .05, .3])),
          'amp': draw(st.sampled_from([1e-3, .1, 10.])),
          'steps': draw(st.integers(1, 4)), 'seed': draw(strat.seeds)}


def toy_state(c):
  import jax
  import ml_collections
  from swirl_fem.niles import train
  cfg = ml_collections.FrozenConfigDict(dict(
      num_elements=c['elements'], num_channels=c['channels'],
      weight_decay=c['decay'], grad_clip_norm=c['clip']))
  rate = lambda step: .1 / (step + 1)
  m = Toy([tuple(s) for s in c['shapes']])
  return train.create_train_state(
      jax.random.PRNGKey(c['seed'] % 1000), m, rate, rate, cfg)


def run_optimizer(case):
  """Decoupled weight decay and clipped gradients with momenta .9 and .95."""
  import jax.numpy as jnp
  c = case
  rng = core.rng_of(case)
  state = toy_state(c)
  p = {k: np.asarray(v, np.float64) for k, v in state.params.items()}
  core.check(p['in'].shape == (1, c['elements'], c['channels']),
             'inputs of the model at the initialisation', got=p['in'].shape)
  m = {k: np.zeros_like(v) for k, v in p.items()}
  v = {k: np.zeros_like(v) for k, v in p.items()}
  for t in range(c['steps']):
    g = {k: c['amp'] * rng.normal(size=a.shape) for k, a in p.items()}
    state = state.apply_gradients(
        grads={k: jnp.asarray(a, jnp.float32) for k, a in g.items()})
    norm = np.sqrt(sum((a ** 2).sum() for a in g.values()))
    if c['clip'] is not None and norm > c['clip']:
      g = {k: a * c['clip'] / norm for k, a in g.items()}
    for k in p:
      m[k] = .9 * m[k] + .1 * g[k]
      v[k] = .95 * v[k] + .05 * g[k] ** 2
      mh, vh = m[k] / (1 - .9 ** (t + 1)), v[k] / (1 - .95 ** (t + 1))
      p[k] = p[k] - .1 / (t + 1) * (mh / (np.sqrt(vh) + 1e-6)
                                    + c['decay'] * p[k])
      core.close(state.params[k], p[k], f'parameters after step {t + 1}',
                 rtol=1e-4, scale=1.)
  core.check(int(state.step) == c['steps'], 'number of the step')


@st.composite
def checkpoint_case(draw):
  c = draw(optimizer_case())
  c['saves'] = draw(st.lists(st.integers(1, 120), min_size=0, max_size=3))
  return c


def run_checkpoint(case):
  """The latest state is restored exactly, and nothing from an empty folder."""
  import tempfile
  import jax
  import jax.numpy as jnp
  from flax import jax_utils
  from swirl_fem.niles import train
  c = case
  rng = core.rng_of(case)
  fresh = toy_state(c)
  state, step, saved = fresh, 0, fresh
  with tempfile.TemporaryDirectory() as d:
    for n in c['saves']:
      step += n
      grads = {k: jnp.asarray(rng.normal(size=a.shape), jnp.float32)
               for k, a in state.params.items()}
      state = state.apply_gradients(grads=grads).replace(step=step)
      train.save_checkpoint(jax_utils.replicate(state), d)
      saved = state
    got = train.restore_checkpoint(toy_state(c), d)
  core.check(int(got.step) == step, 'step of the restored state',
             got=int(got.step), want=step)
  a, ta = jax.tree_util.tree_flatten((got.params, got.opt_state))
  b, tb = jax.tree_util.tree_flatten((saved.params, saved.opt_state))
  core.check(ta == tb, 'structure of the restored state')
  for i, j in zip(a, b):
    core.check(np.asarray(i).dtype == np.asarray(j).dtype, 'types')
    core.same(np.asarray(i), np.asarray(j), 'restored state')


# ---------------------------------------------------------------------------
# Runs
# ---------------------------------------------------------------------------


# Epochs of a single step, or of several ones; the windows are then all the same.
EPOCHS = strat.shard_subset([1, 3, 2], 1)


@st.composite
def run_case(draw):
  # windows in the training shard, stride of the windows, grid
  windows, stride, grid = draw(st.sampled_from(
      [(2, 1, 4), (4, 1, 3), (2, 2, 3), (4, 2, 2)]))
  # steps per epoch
  epoch = draw(st.sampled_from(EPOCHS))
  return {'windows': windows, 'stride': stride, 'grid': grid, 'order': 2,
          'epoch': epoch, 'save': draw(st.sampled_from([1, 2])),
          'log': draw(st.sampled_from([1, 1, 2])), 'evals': draw(
              st.sampled_from([100., 1., .7]) if epoch > 1 else st.just(100.)),
          'zero': draw(st.sampled_from([0, 0, 1])),
          'time_order': draw(st.sampled_from([2, 3])), 'perm': False,
          'steps': draw(st.sampled_from([1, 2])), 'push': 0, 'batch': windows,
          'drag': draw(st.sampled_from([.04, .5])), 're': 100, 'dt': .01,
          'alpha': .05, 'kl': .01,
          'first': draw(st.integers(1, 2 if epoch == 1 else epoch + 1)),
          'second': draw(st.integers(1, 2 if epoch == 1 else epoch + 2)),
          'warmup': draw(st.sampled_from([1., 2.])),
          'epochs': draw(st.sampled_from([3., 6.])),
          'clip': draw(st.sampled_from([.01, 100.])),
          'decay': draw(st.sampled_from([.05, .5])),
          'width': draw(st.integers(1, 4)), 'seed': draw(strat.seeds)}


def run_config(c):
  from swirl_fem.niles.config import niles
  cfg = niles.get_config()
  grid, r = c['grid'], c['order']
  cfg.debug, cfg.cache, cfg.permute_elements = True, False, False
  cfg.element_grid_size, cfg.order, cfg.resolution = grid, r, grid * r
  cfg.num_nodes, cfg.num_elements = (grid * r + 1) ** 2, grid ** 2
  cfg.num_channels = 2 * (r + 1) ** 2
  cfg.time_order, cfg.num_steps, cfg.eval_num_steps = (
      c['time_order'], c['steps'], 1)
  cfg.num_pushforward_steps = 0
  cfg.drag_coeff, cfg.reynolds_number = c['drag'], c['re']
  cfg.dt, cfg.alpha = c['dt'], c['alpha']
  cfg.window_step = 1
  cfg.train_window_size = c['steps'] + c['time_order']
  cfg.train_window_stride = c['stride']
  cfg.eval_window_size, cfg.eval_window_stride = 1 + c['time_order'], 1
  m = cfg.model
  m.depth, m.width, m.mean_after_decoder = 0, c['width'], False
  m.processor_config.num_samples = 0
  cfg.batch_size = c['windows']
  cfg.checkpoint_epochs, cfg.eval_every_epochs, cfg.log_every_steps = (
      c['save'] if c['epoch'] > 1 else 1, c['evals'], c['log'])
  cfg.steps_per_eval = 1
  cfg.kl_penalty, cfg.kl_transition_epochs, cfg.kl_zero_epochs = (
      c['kl'], 4., c['zero'])
  cfg.num_epochs, cfg.warmup_epochs = c['epochs'], c['warmup']
  cfg.learning_rate = 256. * .01 / c['windows']
  cfg.grad_clip_norm, cfg.weight_decay = c['clip'], c['decay']
  return cfg


def closure_model(params, x):
  """The network without layers between the embedding and the output."""
  import jax.numpy as jnp
  d = lambda p, x: x @ p['kernel'] + p['bias']
  y = d(params['embedding'], x) + params['encoder_posembed']['pos_embedding']
  zero = jnp.zeros(len(x), jnp.float32)
  return d(params['decoded_patches'], y), {
      k: zero for k in ('kl_q0', 'kl_path', 'z0_means', 'z1_means', 'z1_stds')}


class Recorder:
  """In place of the writer of the metrics."""

  def __init__(self):
    self.scalars = []

  def write_scalars(self, step, scalars):
    self.scalars.append((int(step), {k: float(v) for k, v in scalars.items()}))

  def flush(self):
    pass


def rate(c, step):
  """Of the schedule: linear warmup, then half a cosine."""
  step = step / c['epoch']
  w = c['warmup']
  if step < w:
    return .01 * step / w
  span = max(c['epochs'] - w, 1)
  return .01 * .5 * (1 + np.cos(np.pi * min((step - w) / span, 1.)))


def penalty(c, step):
  """Zero at first, then linear up to its final value."""
  step = step / c['epoch'] - c['zero']
  return c['kl'] * min(max(step / 4., 0.), 1.)


@contextlib.contextmanager
def environment(c, sem, rng):
  """Files of the data, and a recorder in place of the writer of the metrics."""
  import h5py
  import tensorflow_datasets as tfds
  from absl import flags
  from clu import metric_writers
  from swirl_fem.niles import input_pipeline as ip
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  x = np.asarray(sem.velocity.mesh.node_coords)
  P = sem.pressure.pspace.mesh.num_nodes
  size = c['steps'] + c['time_order']
  T = size + (c['windows'] * c['epoch'] - 1) * c['stride']
  T += -T % c['stride']
  starts = [i for i in range(0, T, c['stride']) if i + size <= T]
  core.check(len(starts) == c['windows'] * c['epoch'],
             'harness: number of windows')
  folder = tempfile.mkdtemp(prefix='verif_p31_')
  old = dict(ip.NUM_SPLIT_EXAMPLES)
  create, recorder = metric_writers.create_default_writer, Recorder()
  try:
    for s in range(28):
      t = np.arange(T)[:, None]
      a, b = 2 * np.pi * rng.integers(1, 3, size=2)
      f, g = rng.uniform(0, 2 * np.pi, size=2)
      still = c.get('still', c['epoch'] > 1)
      t = t * (not still)
      if c.get('vary'):
        t = t + rng.uniform(-2, 2, size=t.shape)
      X, Y = a * x[:, 0] + f + .1 * t, b * x[:, 1] + g - .07 * t
      pres = .1 * rng.normal(size=(T, P))
      data = {'t': np.arange(T) * .1, 'p': pres[:1] + 0 * pres if still else pres,
              'u': np.stack([b * np.cos(X) * np.sin(Y),
                             -a * np.sin(X) * np.cos(Y)], axis=-1) / max(a, b)}
      if s == 0:
        first = data
      if s == 24:
        valid = data
      if s > 24:
        # which of the files are read isn't checked here
        data = valid
      with h5py.File(os.path.join(
          folder, 'filtered_dns_shard_%02d.hdf5' % s), 'w') as h:
        for k, v in data.items():
          h[k] = v
    flags.FLAGS.dataset_dir = folder
    ip.NUM_SPLIT_EXAMPLES[tfds.Split.TRAIN] = 24 * T
    ip.NUM_SPLIT_EXAMPLES[tfds.Split.VALIDATION] = 4 * T
    metric_writers.create_default_writer = lambda *a, **k: recorder
    yield first, valid, starts[:c['windows']], recorder
  finally:
    metric_writers.create_default_writer = create
    ip.NUM_SPLIT_EXAMPLES.clear()
    ip.NUM_SPLIT_EXAMPLES.update(old)
    shutil.rmtree(folder, ignore_errors=True)


def execute(cfg, stops, work):
  """Runs, each continuing the previous one; the states at the stops."""
  import ml_collections
  from swirl_fem.niles import train
  out = {}
  for n in stops:
    cfg.num_train_steps = n
    out[n] = train.train_and_evaluate(
        ml_collections.FrozenConfigDict(cfg), work)
  return out


def run_run(case):
  import jax
  import jax.numpy as jnp
  from flax.training import checkpoints
  c = case
  rng = core.rng_of(case)
  sem = closure.make_sem(c['grid'], c['order'])
  size = c['steps'] + c['time_order']
  work = tempfile.mkdtemp(prefix='verif_p31_')
  try:
    with environment(c, sem, rng) as (first, valid, starts, recorder):
      cfg = run_config(c)
      last = c['first'] + c['second']
      finals = execute(cfg, (c['first'], last), work)
    every = max(int(c['epoch'] * cfg.checkpoint_epochs), 1)
    expected = sorted({i for i in range(1, last + 1) if i % every == 0}
                      | {c['first'], last})
    kept = sorted(int(f.split('_')[-1]) for f in os.listdir(work)
                  if f.startswith('checkpoint_'))
    core.check(kept == expected, 'checkpoints of the runs', got=kept,
               want=expected)
    saved = {step: checkpoints.restore_checkpoint(work, None, step=step)
             for step in kept}
  finally:
    shutil.rmtree(work, ignore_errors=True)
  u = jnp.asarray(np.stack([first['u'][i:i + size] for i in starts]))
  p = jnp.asarray(np.stack([first['p'][i:i + size] for i in starts]))
  grad = jax.jit(jax.value_and_grad(lambda params, u, p: closure.reference(
      c, sem, params, u, p, 0., closure_model)[0]))
  for n, state in finals.items():
    core.check(np.all(np.asarray(state.step) == n), 'steps of the run',
               want=n, got=np.asarray(state.step))
    a, _ = jax.tree_util.tree_flatten(state.params)
    b, _ = jax.tree_util.tree_flatten(saved[n]['params'])
    for i, j in zip(a, b):
      for d in range(2):
        core.same(np.asarray(i)[d], np.asarray(j), 'the final checkpoint')
  logged = [(s, m['train_loss'], m['train_learning_rate'],
             m['train_kl_penalty'])
            for s, m in recorder.scalars if 'train_loss' in m]
  core.check([s for s, *_ in logged] == [
      i for i in range(1, last + 1) if i % c['log'] == 0],
             'logged steps', got=[s for s, *_ in logged])
  for (step, loss, lr, kl) in logged:
    # the mean of the steps since the previous entry, or the start of the run
    low = step - c['log']
    if low < c['first'] < step:
      low = c['first']
    steps = range(low, step)
    core.close(lr, np.mean([rate(c, i) for i in steps]),
               'logged learning rate', rtol=1e-4, scale=.01)
    core.close(kl, np.mean([penalty(c, i) for i in steps]), 'logged penalty',
               rtol=1e-4, scale=c['kl'])
    if all(i in saved for i in steps):
      want = np.mean([float(grad(jax.tree_util.tree_map(
          jnp.asarray, saved[i]['params']), u, p)[0]) for i in steps])
      core.close(loss, want, 'logged loss', rtol=1e-4, atol=1e-5 * np.sqrt(
          want * u[0, 0].size))
  evals = [(s, m['eval_loss'], m['eval_mse']) for s, m in recorder.scalars
           if 'eval_loss' in m]
  every = max(int(c['epoch'] * c['evals']), 1)
  core.check([s for s, *_ in evals] == [
      i for i in range(1, last + 1) if i % every == 0], 'evaluations',
             got=[s for s, *_ in evals])
  if evals:
    e = dict(c, steps=1)
    n = 1 + c['time_order']
    vu, vp = jnp.asarray(valid['u'][None, :n]), jnp.asarray(valid['p'][None, :n])
    f = jax.jit(lambda params: closure.reference(
        e, sem, params, vu, vp, 0., closure_model)[0])
    for step, loss, mse in evals:
      if step in saved:
        want = float(f(jax.tree_util.tree_map(
            jnp.asarray, saved[step]['params'])))
        for v, name in ((loss, 'loss'), (mse, 'error')):
          core.close(v, want, f'{name} of the evaluation', rtol=1e-4,
                     atol=1e-5 * np.sqrt(want * u[0, 0].size))
  # each step is that of the optimizer for the gradient of the loss
  for step in range(1, last):
    if step not in saved or step + 1 not in saved:
      continue
    before, after, t = saved[step], saved[step + 1], step + 1
    _, g = grad(jax.tree_util.tree_map(jnp.asarray, before['params']), u, p)
    flat = lambda t: np.concatenate([
        np.asarray(v, np.float64).ravel()
        for v in jax.tree_util.tree_leaves(t)])
    g = flat(g)
    norm = np.linalg.norm(g)
    if norm > c['clip']:
      g = g * c['clip'] / norm
    (m0, v0), (m1, v1) = (moments(s['opt_state'], flat)
                          for s in (before, after))
    tol = 2e-3 * np.abs(g).max()
    core.close((m1 - .9 * m0) / .1, g, f'gradient of step {t}', rtol=0, atol=tol)
    w0, w1 = flat(before['params']), flat(after['params'])
    mh, vh = m1 / (1 - .9 ** t), v1 / (1 - .95 ** t)
    lr = rate(c, step)
    core.close(w1 - w0, -lr * (mh / (np.sqrt(vh) + 1e-6) + c['decay'] * w0),
               f'change of the parameters in step {t}', rtol=1e-3, scale=.01)


class Noisy:
  """A model without effect, which reports draws of the keys it is given."""

  def __init__(self):
    import jax.numpy as jnp
    self.dtype = jnp.float32

  def init(self, rngs, inputs, z_rng):
    import jax.numpy as jnp
    del rngs, inputs, z_rng
    return {'params': {'k': jnp.ones(2)}}

  def apply(self, variables, inputs, *, z_rng, train, rngs=None):
    import jax
    import jax.numpy as jnp
    one = jnp.ones(len(inputs), jnp.float32)
    v = jax.random.uniform(z_rng, dtype=jnp.float32)
    w = jax.random.uniform(
        rngs['dropout'], dtype=jnp.float32) if train else v
    return 0 * inputs * variables['params']['k'][0], {
        'kl_q0': 0 * one, 'kl_path': 0 * one, 'z0_means': v * one,
        'z1_means': v ** 2 * one, 'z1_stds': w * one}


def run_noise(case):
  """The keys of the devices, steps and runs."""
  from swirl_fem.niles import train
  c = dict(case, width=1)
  rng = core.rng_of(case)
  sem = closure.make_sem(c['grid'], c['order'])
  create, used = train.create_model, []

  def stand_in(*args, **kwargs):
    used.append(args)
    return Noisy()
  logs = []
  last = c['first'] + c['second']
  try:
    train.create_model = stand_in
    with environment(c, sem, rng) as (*_, recorder):
      for stops in ((c['first'], last), (last,)):
        work = tempfile.mkdtemp(prefix='verif_p31_')
        try:
          execute(run_config(dict(c, log=1)), stops, work)
        finally:
          shutil.rmtree(work, ignore_errors=True)
        logs.append(recorder.scalars[:])
        recorder.scalars.clear()
  finally:
    train.create_model = create
  if not used:
    return
  names = ['train_loss', 'train_z0_means', 'train_z1_means', 'train_z1_stds',
           'train_learning_rate', 'eval_loss', 'eval_z0_means']
  a, b = ([(s, [m[k] for k in names if k in m]) for s, m in log]
          for log in logs)
  core.check(a == b, 'a run which has been stopped and continued', stopped=a,
             uninterrupted=b)
  steps = [m for _, m in logs[0] if 'train_loss' in m]
  # the mean over two devices of the draws, and of their squares
  var = max(m['train_z1_means'] - m['train_z0_means'] ** 2 for m in steps)
  core.check(var > 1e-5, 'the devices draw their own noise', variance=var)
  for name in ('train_z0_means', 'train_z1_stds'):
    v = [m[name] for m in steps]
    core.check(len(set(v)) == len(v), 'each step draws its own noise', got=v,
               name=name)
  core.check(all(m['train_z0_means'] != m['train_z1_stds'] for m in steps),
             'noise and dropout have their own keys')


# Batch, batches per epoch, stride, steps and order in time, steps and stride of
# the windows for validation, whose number is a multiple of the batch, too.
SPLITS = strat.shard_subset([
    [2, 3, 2, 1, 2, 1, 3], [4, 2, 2, 1, 2, 2, 2], [2, 2, 2, 2, 2, 3, 1],
    [2, 1, 2, 2, 2, 1, 1], [4, 3, 1, 1, 3, 1, 1], [2, 3, 2, 2, 3, 2, 2],
    [2, 2, 2, 1, 2, 1, 2]], 1)


@st.composite
def split_case(draw):
  batch, epoch, stride, steps, order, e_steps, e_stride = draw(
      st.sampled_from(SPLITS))
  return {'windows': batch, 'epoch': epoch, 'stride': stride, 'steps': steps,
          'time_order': order, 'e_steps': e_steps, 'e_stride': e_stride,
          'still': False, 'vary': True, 'order': 2, 'grid': draw(st.sampled_from([2, 3])),
          'perm': False, 'push': 0, 'batch': batch, 'drag': .1, 're': 100,
          'dt': .01, 'alpha': .05, 'kl': .01, 'save': 1, 'log': epoch,
          'evals': 1., 'zero': 0, 'warmup': 1., 'clip': 1., 'decay': .05,
          'epochs': draw(st.sampled_from([1., 2., 1.5])), 'width': 1,
          'ask': draw(st.sampled_from(['all', 'all', 'all', 'number', 'twice'])),
          'seed': draw(strat.seeds)}


def run_splits(case):
  """Without numbers of steps, runs take whole epochs and evaluations all of
  the windows."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  c = case
  rng = core.rng_of(case)
  sem = closure.make_sem(c['grid'], c['order'])
  create, used = train.create_model, []

  def stand_in(*args, **kwargs):
    used.append(args)
    return Noisy()
  size, e_size = c['steps'] + c['time_order'], c['e_steps'] + c['time_order']
  work = tempfile.mkdtemp(prefix='verif_p31_')
  try:
    train.create_model = stand_in
    with environment(c, sem, rng) as (first, valid, starts, recorder):
      cfg = run_config(c)
      T = len(valid['u'])
      e_starts = range(0, T - e_size + 1, c['e_stride'])
      cfg.eval_num_steps = c['e_steps']
      cfg.eval_window_size, cfg.eval_window_stride = e_size, c['e_stride']
      batches = len(e_starts) // c['windows']
      cfg.steps_per_eval = {'all': -1, 'number': batches,
                            'twice': 2 * batches}[c['ask']]
      starts = [i for i in range(0, T, c['stride']) if i + size <= T]
      final = execute(cfg, (-1,), work)[-1]
  finally:
    train.create_model = create
    shutil.rmtree(work, ignore_errors=True)
  if not used:
    return
  last = int(c['epoch'] * c['epochs'])
  core.check(np.all(np.asarray(final.step) == last), 'steps of the run',
             got=np.asarray(final.step), want=last)

  def mean_loss(data, steps, n, starts):
    none = lambda params, x: (0 * x, {
        k: jnp.zeros(len(x)) for k in ('kl_q0', 'kl_path')})
    u, p = (jnp.asarray(np.stack([data[k][i:i + n] for i in starts]))
            for k in 'up')
    return float(jax.jit(lambda u, p: closure.reference(
        dict(c, steps=steps), sem, None, u, p, 0., none)[0])(u, p))

  got = [(s, m['train_loss']) for s, m in recorder.scalars if 'train_loss' in m]
  ends = [i for i in range(1, last + 1) if i % c['epoch'] == 0]
  core.check([s for s, _ in got] == ends, 'logged epochs', got=got)
  want = mean_loss(first, c['steps'], size, starts)
  for s, v in got:
    core.close(v, want, f'mean loss of the epoch before step {s}', rtol=1e-4)
  got = [(s, m['eval_loss']) for s, m in recorder.scalars if 'eval_loss' in m]
  core.check([s for s, _ in got] == ends, 'evaluations', got=got)
  want = mean_loss(valid, c['e_steps'], e_size, e_starts)
  for s, v in got:
    core.close(v, want, f'mean loss of the windows for validation at step {s}',
               rtol=1e-4)


def moments(state, flat):
  """First and second moments, of the state of the optimizer."""
  found = []

  def visit(s):
    if isinstance(s, dict):
      if 'mu' in s and 'nu' in s:
        found.append((flat(s['mu']), flat(s['nu'])))
      else:
        for k in sorted(s):
          visit(s[k])
  visit(state)
  return found[0]


def labels(c):
  if 'windows' in c:
    return [f"windows={c['windows']}", f"clip={c['clip']}"]
  return [f"clip={c['clip']}"] + ([f"saves={len(c['saves'])}"]
                                  if 'saves' in c else [])


SUBS = {
    'run': core.Sub(run_case(), run_run, labels, lambda c: True,
                    'interrupted and resumed runs, step by step'),
    'noise': core.Sub(run_case(), run_noise, labels, lambda c: True,
                      'draws of a stand-in of the model, in resumed runs'),
    'splits': core.Sub(split_case(), run_splits, labels, lambda c: True,
                       'epochs and evaluations of a stand-in of the model'),
    'optimizer': core.Sub(optimizer_case(), run_optimizer, labels,
                          lambda c: len(c['shapes']) > 1,
                          'updates against their formula'),
    'schedule': core.Sub(
        closure.schedule_case(), closure.run_schedule, None,
        lambda c: c['spe'] > 1, 'closed form of the schedules'),
    'checkpoint': core.Sub(checkpoint_case(), run_checkpoint, labels,
                           lambda c: len(c['saves']) > 0,
                           'saved and restored state'),
}
