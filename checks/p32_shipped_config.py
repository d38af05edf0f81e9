"""P32: the shipped configurations fit the mesh, the data and the model."""

import functools
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import core, strat

RULE = ('A case is non-trivial if the configuration is an entry of the sweep '
        'or has an override, or if several data files are read.')
PLAN = [
    {'subs': {'steps': (1, 1)}, 'shards': (7, 7), 'env': {'x64': True},
     'tag': 'steps'},
    {'subs': {'mesh': (12, 60), 'windows': (10, 100), 'rates': (40, 400)},
     'shards': (1, 3), 'env': {'x64': True}},
]
ASSUMPTIONS = [
    'Full-size steps are evaluated abstractly (shapes and types); their values '
    'are those of P29 and P30.',
    'The data files hold fewer snapshots, of fewer nodes, than the real ones.']

# Overrides which leave the relations between the options as they are
OVERRIDES = [
    {},
    {'model.depth': 0, 'model.pooling_layers': (),
     'permute_elements': False},
    {'model.processor_config.num_samples': 0,
     'model.mean_after_decoder': False, 'num_pushforward_steps': 0},
    {'model.processor_config.num_samples': 1, 'grad_clip_norm': None,
     'model.use_residuals': False, 'num_pushforward_steps': 3}]
SWEEPS = 3


def shipped(c):
  """The default configuration (0) or an entry of the sweep; then overrides."""
  import ml_collections
  from swirl_fem.niles.config import niles
  entries = [{}]
  niles.sweep(lambda **kw: entries.append(kw))
  out = niles.get_config()
  text = str(out)
  entry = entries[c['entry'] % len(entries)]
  for k, v in {**entry, **OVERRIDES[c['override']]}.items():
    d, path = out, k.split('.')
    for p in path[:-1]:
      core.check(p in d, 'the sweep changes an option which exists', option=k)
      d = d[p]
    core.check(path[-1] in d, 'the sweep changes an option which exists',
               option=k)
    with d.ignore_type():
      d[path[-1]] = v
  core.check(str(niles.get_config()) == text, 'overrides change the shipped '
             'configuration itself', options=list(entry))
  return ml_collections.FrozenConfigDict(out)


@functools.lru_cache(maxsize=2)
def meshes(size, order):
  from swirl_fem.common import premesh_commons
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  from swirl_fem.niles import train
  square = premesh_commons.unit_cube_mesh(size, periodic_dims=(0, 1))
  sem = StokesSEM.create(square, boundary_conditions={}, order=order)
  uniform = refine_premesh(square, gridpoints_1d=Nodes1D.create(
      num_points=order + 1, node_type=NodeType.NEWTON_COTES)).finalize()
  first = premesh_commons.unit_cube_mesh(size * order).finalize()
  return sem, uniform, first, train.transfer_perm(uniform, first)


@st.composite
def case(draw):
  return {'entry': draw(st.integers(0, SWEEPS)),
          'override': draw(st.integers(0, len(OVERRIDES) - 1)),
          'seed': draw(strat.seeds)}


# ---------------------------------------------------------------------------
# Mesh and spectrum
# ---------------------------------------------------------------------------


def run_mesh(case):
  """Counts of the configuration; spectra of its grid have no empty bins."""
  import jax.numpy as jnp
  from swirl_fem.niles import train
  cfg = shipped(case)
  sem, uniform, first, perm = meshes(cfg.element_grid_size, cfg.order)
  mesh = sem.velocity.mesh
  core.check(cfg.num_nodes == mesh.num_nodes == uniform.num_nodes
             == first.num_nodes, 'number of nodes', got=cfg.num_nodes,
             expected=mesh.num_nodes)
  core.check(cfg.num_elements == mesh.num_elements, 'number of elements',
             got=cfg.num_elements, expected=mesh.num_elements)
  core.check(cfg.ndim == mesh.ndim, 'dimension')
  core.check(cfg.num_channels == mesh.num_nodes_per_element * mesh.ndim,
             'number of channels', got=cfg.num_channels,
             expected=mesh.num_nodes_per_element * mesh.ndim)
  core.check(cfg.resolution ** 2 == first.num_elements, 'resolution',
             got=cfg.resolution)
  core.same(np.sort(np.asarray(perm)), np.arange(first.num_nodes),
            'every node of the uniform grid is a node of the refined mesh')
  if cfg.permute_elements:
    core.same(np.sort(train.make_multiscale_perm()),
              np.arange(cfg.num_elements), 'permutation of the elements')
  pools = list(cfg.model.pooling_layers)
  core.check(len(set(pools)) == len(pools)
             and all(0 <= i < cfg.model.depth for i in pools),
             'pooling layers are layers of the encoder', pools=pools,
             depth=cfg.model.depth)

  rng = core.rng_of(case)
  x = np.asarray(mesh.node_coords)
  u = np.zeros(x.shape)
  for _ in range(6):
    k = rng.integers(-12, 13, size=2)
    u += rng.normal(size=2) * np.sin(
        2 * np.pi * (x @ k + rng.uniform()))[:, None]
  u += 1e-3 * rng.normal(size=u.shape)
  tke = train.get_tke(jnp.asarray(u), sem=sem, uniform_mesh=uniform,
                      first_order_perm=perm, config=cfg)
  bins, spectrum = train.get_energy_spectrum(tke, config=cfg)
  core.check(len(bins) == len(spectrum), 'length of the spectrum')
  spectrum = np.asarray(spectrum)
  core.check(np.all(np.isfinite(np.log(spectrum))),
             'the spectrum of the grid has no empty bins', spectrum=spectrum)


# ---------------------------------------------------------------------------
# Full-size steps
# ---------------------------------------------------------------------------


@st.composite
def steps_case(draw):
  """Shards split the entries of the sweep and the overrides."""
  every = [(i, 0) for i in range(SWEEPS + 1)]
  every += [(0, i) for i in range(1, len(OVERRIDES))]
  mine = strat.shard_subset(every, 1)
  entry, override = draw(st.sampled_from(mine))
  return {'entry': entry, 'override': override,
          'batch': draw(st.integers(1, 3))}


def run_steps(case):
  """Training and evaluation steps are well-formed, and report the metrics."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import train
  from swirl_fem.niles.config import niles
  cfg = shipped(case)
  sem, uniform, _, perm = meshes(cfg.element_grid_size, cfg.order)
  model = train.create_model(model_name=cfg.model_name,
                             model_config=cfg.model)
  rate = train.create_learning_rate_fn(cfg, cfg.learning_rate, 100)
  kl = train.create_kl_penalty_fn(cfg, 100)

  def create(key):
    overview = train.parameter_overview.log_parameter_overview
    train.parameter_overview.log_parameter_overview = lambda *a, **k: None
    try:
      return train.create_train_state(key, model, rate, rate, cfg)
    finally:
      train.parameter_overview.log_parameter_overview = overview

  state = jax.eval_shape(create, jax.random.PRNGKey(0))
  lead = lambda t: jax.tree_util.tree_map(
      lambda a: jax.ShapeDtypeStruct((1,) + a.shape, a.dtype), t)
  key = jax.ShapeDtypeStruct((1, 2), jnp.uint32)

  def batch(window):
    n = -(-window // cfg.window_step)
    core.check(n >= 1, 'length of the windows')
    f64 = jnp.float64
    return n, {
        'u': jax.ShapeDtypeStruct(
            (1, case['batch'], n, sem.velocity.mesh.num_nodes, 2), f64),
        'p': jax.ShapeDtypeStruct(
            (1, case['batch'], n, sem.pressure.pspace.mesh.num_nodes), f64)}

  n, data = batch(cfg.train_window_size)
  core.check(n == cfg.num_steps + cfg.time_order,
             'training windows hold the initial states and the targets',
             window=n, steps=cfg.num_steps, initial=cfg.time_order)
  step = jax.vmap(lambda s, b, k: train.train_step(
      s, b, learning_rate_fn=rate, kl_penalty_fn=kl, sem=sem, train_rng=k,
      config=cfg), axis_name='batch')
  new, metrics = jax.eval_shape(step, lead(state), data, key)
  want = jax.tree_util.tree_map(lambda a: (a.shape, a.dtype), lead(state))
  got = jax.tree_util.tree_map(lambda a: (a.shape, a.dtype), new)
  core.check(want == got, 'a training step keeps shapes and types of the state')
  for k, v in metrics.items():
    core.check(v.shape == (1,) and jnp.issubdtype(v.dtype, jnp.floating),
               'metrics are numbers', metric=k, shape=v.shape)

  n, data = batch(cfg.eval_window_size)
  core.check(n == cfg.eval_num_steps + cfg.time_order,
             'evaluation windows hold the initial states and the targets',
             window=n, steps=cfg.eval_num_steps, initial=cfg.time_order)
  step = jax.vmap(lambda s, b, k: train.eval_step(
      s, b, kl_penalty_fn=kl, sem=sem, uniform_mesh=uniform,
      first_order_perm=perm, eval_rng=k, config=cfg), axis_name='batch')
  evals = jax.eval_shape(step, lead(state), data, key)
  for k, v in evals.items():
    core.check(v.shape == (1,) and jnp.issubdtype(v.dtype, jnp.floating),
               'metrics are numbers', metric=k, shape=v.shape)

  made = {'steps_per_second'} | {f'train_{k}' for k in metrics}
  made |= {f'eval_{k}' for k in evals}
  missing = sorted(set(niles.metrics()) - made)
  core.check(not missing, 'the listed metrics are reported', missing=missing)


# ---------------------------------------------------------------------------
# Data
# ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=1)
def interval():
  """Times of the snapshots and viscosities of the shipped data generator."""
  import inspect
  import jax.numpy as jnp
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  from swirl_fem.niles.datagen import datagen
  import h5py
  sem = StokesSEM.create(
      premesh_commons.unit_cube_mesh(2, ndim=2, periodic_dims=(0, 1)),
      boundary_conditions={}, order=3)
  if not datagen.FLAGS.is_parsed():
    datagen.FLAGS(['check'], known_only=True)
  u = jnp.zeros((sem.velocity.mesh.num_nodes, 2))
  p = jnp.zeros(sem.pressure.pspace.mesh.num_nodes)
  d = tempfile.mkdtemp()
  viscosities = set()
  step = StokesSEM.stokes_one_step

  def recorded(*args, **kw):
    bound = inspect.signature(step).bind(*args, **kw).arguments
    viscosities.add(float(bound['mu']))
    return step(*args, **kw)

  StokesSEM.stokes_one_step = recorded
  try:
    datagen.FLAGS.workdir = d
    n = datagen.TIME_ORDER
    datagen.one_cycle(sem=sem, start_step=0, num_steps=20, us=(u,) * n,
                      ps=(p,) * n)
    name, = os.listdir(d)
    with h5py.File(os.path.join(d, name)) as f:
      t = np.array(f['t'])
  finally:
    StokesSEM.stokes_one_step = step
    shutil.rmtree(d)
  return np.diff(t), viscosities


@st.composite
def windows_case(draw):
  c = draw(case())
  c['debug'] = draw(st.booleans())
  c['train'] = draw(st.booleans())
  c['extra'] = draw(st.integers(0, 12))
  c['batch'] = draw(st.sampled_from([1, 2, 3]))
  return c


def run_windows(case):
  """Samples of a window are a time step of the solver apart."""
  import h5py
  import tensorflow_datasets as tfds
  from swirl_fem.niles import input_pipeline as ip
  c = case
  cfg = shipped(c)
  d, viscosities = interval()
  core.check(np.allclose(d, d[0], rtol=1e-9), 'times between the snapshots')
  for mu in viscosities:
    core.check(abs(mu * cfg.reynolds_number - 1) < 1e-9,
               'data and training have the same viscosity', data=mu,
               reynolds_number=cfg.reynolds_number)
  steps = cfg.num_steps if c['train'] else cfg.eval_num_steps
  size = cfg.train_window_size if c['train'] else cfg.eval_window_size
  stride = cfg.train_window_stride if c['train'] else cfg.eval_window_stride
  n = size + stride * c['extra']
  rng = core.rng_of(case)
  folder = tempfile.mkdtemp()
  from absl import flags
  flags_obj = flags.FLAGS
  if not flags_obj.is_parsed():
    flags_obj(['check'], known_only=True)
  old = dict(ip.NUM_SPLIT_EXAMPLES)
  try:
    for i in range(28):
      with h5py.File(os.path.join(
          folder, 'filtered_dns_shard_{:02}.hdf5'.format(i)), 'w') as f:
        start = i * 1000.
        f['t'] = start + d[0] * np.arange(n)
        f['u'] = rng.normal(size=(n, 2, 2))
        f['p'] = rng.normal(size=(n, 1))
    flags_obj.dataset_dir = folder
    ip.NUM_SPLIT_EXAMPLES[tfds.Split.TRAIN] = n * 24
    ip.NUM_SPLIT_EXAMPLES[tfds.Split.VALIDATION] = n * 4
    import ml_collections
    data = ml_collections.ConfigDict(cfg.to_dict())
    data.debug = c['debug']
    ds = ip.create_split(c['batch'], c['train'],
                         ml_collections.FrozenConfigDict(data))
    for _, b in zip(range(3), ds.as_numpy_iterator()):
      core.check(b['t'].shape == (c['batch'], steps + cfg.time_order),
                 'windows hold the initial states and the targets',
                 got=b['t'].shape, steps=steps, initial=cfg.time_order)
      core.check(b['u'].shape[:2] == b['t'].shape == b['p'].shape[:2],
                 'windows of all fields')
      core.close(np.diff(b['t'], axis=1),
                 np.full((c['batch'], steps + cfg.time_order - 1), cfg.dt),
                 'samples are a time step of the solver apart', rtol=1e-6)
  finally:
    ip.NUM_SPLIT_EXAMPLES.update(old)
    flags_obj.dataset_dir = ''
    shutil.rmtree(folder)


# ---------------------------------------------------------------------------
# Length of a run
# ---------------------------------------------------------------------------


@st.composite
def rates_case(draw):
  c = draw(case())
  c['debug'] = draw(st.booleans())
  c['batch'] = draw(st.sampled_from([None, None, 8, 32, 64, 128, 256]))
  return c


def run_rates(case):
  """The intervals are at least a step; the rates rise, and then fall."""
  import tensorflow_datasets as tfds
  from swirl_fem.niles import input_pipeline as ip
  from swirl_fem.niles import train
  c = case
  cfg = shipped(c)
  batch = c['batch'] or cfg.batch_size
  spe = ip.get_num_examples(
      tfds.Split.TRAIN, window_size=cfg.train_window_size,
      window_stride=cfg.train_window_stride, debug=c['debug']) // batch
  # all files are of the same length, and 24 and 4 of them belong to the splits
  count = lambda split, debug: ip.get_num_examples(
      split, window_size=1, window_stride=1, debug=debug)
  one = count(tfds.Split.TRAIN, True)
  core.check(one == count(tfds.Split.VALIDATION, True)
             and count(tfds.Split.TRAIN, False) == 24 * one
             and count(tfds.Split.VALIDATION, False) == 4 * one,
             'snapshots of the files of the splits', per_file=one,
             train=count(tfds.Split.TRAIN, False),
             validation=count(tfds.Split.VALIDATION, False))
  core.check(int(spe * cfg.eval_every_epochs) >= 1, 'steps between evaluations',
             per_epoch=spe)
  core.check(int(spe * cfg.checkpoint_epochs) >= 1, 'steps between checkpoints',
             per_epoch=spe)
  n = int(spe * cfg.num_epochs)
  core.check(n >= 1, 'steps of the run')
  rate = train.create_learning_rate_fn(cfg, 1., spe)
  kl = train.create_kl_penalty_fn(cfg, spe)
  at = np.unique(np.linspace(0, n, 60).astype(int))
  r = np.array([float(rate(i)) for i in at])
  core.check(np.all(r >= 0) and r.max() <= 1 + 1e-6, 'learning rates', rates=r)
  top = int(r.argmax())
  core.check(r.max() > .9 and 0 < top < len(at) - 1,
             'the learning rate reaches its peak within the run', rates=r)
  core.check(np.all(np.diff(r[:top + 1]) > 0)
             and np.all(np.diff(r[top + 1:]) <= 1e-12),
             'the learning rate rises to its peak and then falls', rates=r)
  core.check(r[-1] < .01, 'the learning rate ends near zero', rates=r)
  k = np.array([float(kl(i)) for i in at])
  core.check(np.all(np.diff(k) >= -1e-12) and k[0] >= 0
             and abs(k[-1] - cfg.kl_penalty) <= 1e-6 * cfg.kl_penalty,
             'the penalty rises to its configured value', penalties=k)
  core.check(cfg.num_pushforward_steps < cfg.num_steps,
             'the closure terms of some steps are trained')
  core.check(cfg.train_window_size <= cfg.eval_window_size,
             'evaluations are at least as long as the training rollouts')


def labels(c):
  return [f"entry={c['entry']}", f"override={c['override']}"] + (
      [f"debug={c['debug']}"] if 'debug' in c else [])


def nontrivial(c):
  return c['entry'] > 0 or c['override'] > 0 or c.get('debug') is False


SUBS = {
    'mesh': core.Sub(case(), run_mesh, labels, nontrivial),
    'steps': core.Sub(steps_case(), run_steps, labels, nontrivial),
    'windows': core.Sub(windows_case(), run_windows, labels, nontrivial),
    'rates': core.Sub(rates_case(), run_rates, labels, nontrivial),
}
