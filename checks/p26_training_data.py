"""P26: training utilities permute, window, pool and bin data faithfully."""

import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vf import closure, core, gen, nets, strat

RULE = ('A case is non-trivial if there are at least two levels of patches, or '
        'at least two windows, or windows of at least two positions with more '
        'than one head, or a spectrum with at least 5 modes per direction, or '
        'a transfer between meshes numbered differently.')
PLAN = [
    {'subs': {'perm': (200, 3000), 'spectrum': (40, 300), 'schedule': (40, 400),
              'transfer': (40, 400)},
     'shards': (1, 2), 'env': {'x64': True}},
    {'subs': {'windows': (40, 300), 'pool': (80, 600)},
     'shards': (1, 3), 'env': {'x64': False}, 'tag': 'f32'},
    {'subs': {'blocks': (14, 120)},
     'shards': (2, 3), 'env': {'x64': False}, 'tag': 'blocks'},
]
ASSUMPTIONS = [
    'Patch sizes tile the grid, and the factors are the sizes of the patches '
    'of the previous level.',
    'Every shard has the announced length, which the stride divides, and at '
    'least one window.',
    'Modes whose wave number is the boundary of a bin carry no energy.',
    'Pooling windows of one position mean no pooling, regardless of the '
    'strides.',
]


# ---------------------------------------------------------------------------
# Permutation of elements
# ---------------------------------------------------------------------------


@st.composite
def perm_case(draw):
  base = draw(st.integers(1, 4))
  sizes, edge = [], base
  for _ in range(draw(st.integers(0, 3))):
    p = draw(st.integers(1, 4))
    if edge * p > 36:
      break
    sizes.append(p)
    edge *= p
  return {'base': base, 'sizes': sizes, 'default': draw(st.integers(0, 30)) == 0}


def run_perm(case):
  from swirl_fem.niles import train
  base, sizes = case['base'], case['sizes']
  if case['default']:
    base, sizes = 2, [2, 3]
    got = train.make_multiscale_perm()
  else:
    factors = tuple(int(base * np.prod(sizes[:i])) for i in range(len(sizes)))
    got = train.make_multiscale_perm(
        size=int(base * np.prod(sizes)), patch_sizes=tuple(sizes),
        factors=factors)
  size = int(base * np.prod(sizes))
  got = np.asarray(got)
  core.check(got.shape == (size ** 2,), 'length of the permutation',
             got=got.shape)
  core.check(np.issubdtype(got.dtype, np.integer), 'type', got=got.dtype)
  core.same(np.sort(got), np.arange(size ** 2), 'bijection')
  # patches of all levels are contiguous, and start at their lowest corner
  edge = base
  for p in [1] + sizes:
    edge *= p
    blocks = got.reshape(-1, edge ** 2)
    i, j = blocks // size, blocks % size
    bi, bj = i // edge, j // edge
    core.check(np.all(bi == bi[:, :1]) and np.all(bj == bj[:, :1]),
               'patches are contiguous', edge=edge)
    # sub-patches are ordered lexicographically within their parent
  expected = _perm(size, base, sizes)
  core.same(got, expected, 'order of the patches')


def _perm(size, base, sizes):
  """Recursively, from the coarsest level."""
  def visit(i, j, edge, sizes):
    if not sizes:
      return [(i + a) * size + j + b for a in range(edge) for b in range(edge)]
    p = sizes[-1]
    e = edge // p
    out = []
    for a in range(p):
      for b in range(p):
        out += visit(i + a * e, j + b * e, e, sizes[:-1])
    return out
  return np.array(visit(0, 0, size, sizes))


# ---------------------------------------------------------------------------
# Transfer between meshes
# ---------------------------------------------------------------------------


@st.composite
def transfer_case(draw):
  return {'topo': draw(st.sampled_from(
      ['line4', 'quad2x2', 'quad3x2', 'tri24', 'hex2', 'quadL'])),
          'geom': draw(strat.geom()), 'n': draw(st.integers(2, 4)),
          'renumber': draw(strat.opt_seed()), 'subset': draw(st.booleans()),
          'seed': draw(strat.seeds)}


def run_transfer(case):
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.niles import train
  rng = core.rng_of(case)
  premesh = gen.to_premesh(gen.build(
      {'base': strat.TOPO[case['topo']], 'geom': case['geom']}))
  fine = refine_premesh(premesh, gen.nodes1d('nc', case['n']))
  x = np.asarray(fine.node_coords)
  # the target has the same nodes, or some of them, in another order
  k = len(x)
  order = np.arange(k) if case['renumber'] is None else rng.permutation(k)
  target_x, elements = x[order], np.argsort(order)[np.asarray(fine.elements)]
  if case['subset']:
    keep = np.sort(rng.choice(k, size=max(2, k // 2), replace=False))
    order, target_x = order[keep], target_x[keep]
    elements = np.zeros_like(elements)
  target = Premesh.create(
      node_coords=target_x, elements=elements.astype(np.int32),
      gridpoints_1d=fine.gridpoints_1d)
  perm = np.asarray(train.transfer_perm(fine.finalize(), target.finalize()))
  core.same(perm, order, 'source node at the position of each target node')
  field = rng.normal(size=k)
  core.same(field[perm], field[order], 'transferred field')


# ---------------------------------------------------------------------------
# Energy spectrum
# ---------------------------------------------------------------------------


@st.composite
def spectrum_case(draw):
  return {'n': draw(st.integers(3, 24)), 'seed': draw(strat.seeds),
          'kind': draw(st.sampled_from(['dense', 'one', 'decay']))}


def run_spectrum(case):
  import types
  from swirl_fem.niles import train
  n = case['n']
  rng = core.rng_of(case)
  ks = np.arange(n) - n // 2
  kk = ks[:, None] ** 2 + ks[None, :] ** 2      # exact integers
  kmax2 = int(kk.max())
  tke = rng.uniform(0.1, 1, size=(n, n))
  if case['kind'] == 'one':
    m = np.zeros((n, n))
    m[tuple(rng.integers(0, n, 2))] = 1
    tke = tke * m
  elif case['kind'] == 'decay':
    tke = tke / (1 + kk) ** 2
  # |k| = kmax j / 19 is the boundary of the bins; bin i is [i - 1, i)
  pos = 19 * np.sqrt(kk / kmax2)
  edge = (np.abs(pos - np.round(pos)) < 1e-9) & (kk > 0)
  tke = np.where(edge, 0, tke)
  bins, got = train.get_energy_spectrum(
      tke, types.SimpleNamespace(num_nodes=n * n))
  core.check(np.asarray(got).shape == (18,), 'number of bins',
             got=np.asarray(got).shape)
  core.close(bins, np.sqrt(kmax2) * np.arange(1, 19) / 19, 'wave numbers')
  expected = np.zeros(18)
  for i in range(n):
    for j in range(n):
      b = int(np.floor(pos[i, j] + 1e-12))
      if b < 18:
        expected[b] += tke[i, j]
  core.close(got, expected, 'energy per bin', rtol=1e-12, scale=tke.sum() + 1)


# ---------------------------------------------------------------------------
# Input pipeline
# ---------------------------------------------------------------------------


@st.composite
def windows_case(draw):
  stride = draw(st.integers(1, 5))
  length = stride * draw(st.integers(1, 8))
  return {'stride': stride, 'length': length,
          'window': draw(st.integers(1, min(length, 9))),
          'step': draw(st.integers(1, 4)), 'train': draw(st.booleans()),
          'debug': draw(st.booleans()), 'batch': draw(st.integers(1, 4)),
          'nodes': draw(st.integers(1, 3)), 'cache': draw(st.booleans()),
          'f32': draw(st.booleans()), 'seed': draw(strat.seeds)}


def run_windows(case):
  import h5py
  import ml_collections
  import tensorflow_datasets as tfds
  from absl import flags
  from swirl_fem.niles import input_pipeline as ip
  c = case
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  rng = core.rng_of(case)
  train, debug = c['train'], c['debug']
  shards = range(24) if train else range(24, 28)
  used = list(shards)[:1] if debug else list(shards)
  split = tfds.Split.TRAIN if train else tfds.Split.VALIDATION
  other = {'window': 1 + c['window'] % 3, 'stride': 1 + c['stride'] % 3}
  mine = {'window': c['window'], 'stride': c['stride']}
  tr, ev = (mine, other) if train else (other, mine)
  config = ml_collections.FrozenConfigDict({
      'debug': debug, 'train_window_size': tr['window'],
      'train_window_stride': tr['stride'], 'eval_window_size': ev['window'],
      'eval_window_stride': ev['stride'], 'window_step': c['step'],
      'cache': c['cache']})
  d = core.scratch()
  old = dict(ip.NUM_SPLIT_EXAMPLES)
  try:
    expected = []
    for s in shards:
      data = {'t': np.arange(c['length']) * .5 + 1000 * s,
              'u': rng.normal(size=(c['length'], c['nodes'], 2)),
              'p': rng.normal(size=(c['length'], c['nodes']))}
      if c['f32']:
        data = {k: v.astype(np.float32) for k, v in data.items()}
      path = os.path.join(d, 'filtered_dns_shard_%02d.hdf5' % s)
      with h5py.File(path, 'w') as f:
        for k, v in data.items():
          f[k] = v
      back = ip.read_snapshots_file(path)
      core.check(sorted(back) == ['p', 't', 'u'], 'keys of the snapshots',
                 got=sorted(back))
      for k, v in data.items():
        core.same(back[k], v.astype(np.float64), 'snapshots read back')
      if s in used:
        start = 0
        while start + c['window'] <= c['length']:
          rows = [start + i for i in range(c['window']) if i % c['step'] == 0]
          expected.append({k: v[rows].astype(np.float64)
                           for k, v in data.items()})
          start += c['stride']
    ip.NUM_SPLIT_EXAMPLES[split] = c['length'] * len(shards)
    flags.FLAGS.dataset_dir = d
    count = ip.get_num_examples(split, window_size=c['window'],
                                window_stride=c['stride'], debug=debug)
    if debug:
      core.check(count == len(expected), 'announced number of windows',
                 announced=count, windows=len(expected))
    core.check(count >= len(expected), 'no window is dropped', announced=count,
               windows=len(expected))
    ds = ip.create_split(c['batch'], train, config)
    n = len(expected) // c['batch']
    it = iter(ds.as_numpy_iterator()) if n else iter(())
    by_key = {e['t'].tobytes(): e for e in expected}
    core.check(len(by_key) == len(expected), 'harness: windows differ')
    for epoch in range(2 if n <= 12 else 1):
      seen = set()
      for _ in range(n):
        batch = next(it)
        core.check(sorted(batch) == ['p', 't', 'u'], 'keys', got=sorted(batch))
        for b in range(c['batch']):
          t = np.asarray(batch['t'][b], np.float64)
          e = by_key.get(t.tobytes())
          core.check(e is not None, 'a window which is not in the data',
                     times=t.tolist(), epoch=epoch)
          core.check(t.tobytes() not in seen, 'a window is repeated within an '
                     'epoch', times=t.tolist())
          seen.add(t.tobytes())
          core.same(batch['u'][b], e['u'], 'velocity of the window')
          core.same(batch['p'][b], e['p'], 'pressure of the window')
      core.check(len(seen) == n * c['batch'], 'number of windows per epoch')
  finally:
    ip.NUM_SPLIT_EXAMPLES.clear()
    ip.NUM_SPLIT_EXAMPLES.update(old)
    shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------
# Pooling and attention
# ---------------------------------------------------------------------------


@st.composite
def pool_case(draw):
  spatial = draw(st.sampled_from([1, 1, 2]))
  heads = draw(st.sampled_from([1, 2, 3]))
  return {'batch': draw(st.integers(1, 3)), 'heads': heads,
          'dim': draw(st.integers(1, 3)),
          'shape': [draw(st.integers(1, 9)) for _ in range(spatial)],
          'window': [draw(st.integers(1, 5)) for _ in range(spatial)],
          'strides': [draw(st.integers(1, 4)) for _ in range(spatial)],
          # (1, w): the batch axis takes part as an axis of its own
          'lead': draw(st.booleans()),
          'mode': draw(st.sampled_from(['avg', 'avg', 'max', 'max', 'none'])),
          'seed': draw(strat.seeds)}


def run_pool(case):
  import jax.numpy as jnp
  from swirl_fem.niles import transformer
  c = case
  rng = core.rng_of(case)
  x = rng.normal(size=(c['batch'], *c['shape'], c['heads'] * c['dim']))
  x = x.astype(np.float32)
  window, strides = list(c['window']), list(c['strides'])
  expected = nets.attention_pool(x, window, strides, c['mode'], c['heads'])
  if c['lead']:
    window, strides = [1] + window, [1] + strides
  got = transformer.attention_pooling(
      jnp.asarray(x), tuple(window), tuple(strides), c['mode'], c['heads'])
  core.close(got, expected, 'pooled heads', rtol=1e-6, scale=5)
  if c['mode'] != 'none':
    got = transformer.attention_pooling(
        jnp.asarray(x), (), tuple(strides), c['mode'], c['heads'])
    core.close(got, nets.attention_pool(x, [], [], 'none', c['heads']),
               'heads without pooling', rtol=1e-6, scale=5)


@st.composite
def blocks_case(draw):
  heads = draw(st.sampled_from([1, 2, 3]))
  return {'kind': draw(st.sampled_from(
      ['down', 'up', 'encoder', 'decoder', 'posemb'])),
          'batch': draw(st.integers(1, 2)), 'len': draw(st.integers(1, 7)),
          'heads': heads, 'dim': draw(st.integers(1, 3)),
          'wq': draw(st.integers(1, 4)), 'wkv': draw(st.integers(1, 4)),
          'sq': draw(st.integers(1, 3)), 'skv': draw(st.integers(1, 3)),
          'reps': draw(st.integers(1, 3)), 'mode': draw(
              st.sampled_from(['avg', 'max'])),
          'residual': draw(st.booleans()), 'bias': draw(st.booleans()),
          'out': draw(st.sampled_from([1, 2])), 'seed': draw(strat.seeds)}


def run_blocks(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles import transformer as T
  c = dict(case)
  rng = core.rng_of(case)
  features = c['heads'] * c['dim']
  x = rng.normal(size=(c['batch'], c['len'], features)).astype(np.float32)
  kind = c['kind']
  if c['wq'] == 1:
    c['sq'] = 1  # the queries aren't pooled
  if c['wkv'] == 1:
    c['skv'] = 1
  if kind == 'down':
    m = T.MultiScaleAttentionDownSample(
        num_heads=c['heads'], pool_q=(c['wq'],), pool_kv=(c['wkv'],),
        stride_q=(c['sq'],), stride_kv=(c['skv'],), pool_mode=c['mode'],
        use_residual_q_pooling=c['residual'], use_bias=c['bias'])
  elif kind == 'up':
    m = T.MultiScaleAttentionUpsample(
        num_heads=c['heads'], qkv_tile_reps=(c['reps'], 1),
        use_residual_q_pooling=c['residual'], use_bias=c['bias'])
  elif kind == 'encoder':
    c['residual'] = True
    m = T.EncoderBlock(
        out_dim=features * c['out'], num_heads=c['heads'],
        pooling_kernel_q=(c['wq'],), pooling_kernel_kv=(c['wkv'],),
        pooling_stride_q=(c['sq'],), pooling_stride_kv=(c['skv'],),
        use_bias=c['bias'])
  elif kind == 'decoder':
    c['residual'] = True
    m = T.DecoderBlock(out_dim=features * c['out'], num_heads=c['heads'],
                       qkv_tile_reps=(c['reps'], 1), use_bias=c['bias'])
  else:
    m = T.AddPosEmbs()
  shapes = m.init(jax.random.PRNGKey(0), jnp.asarray(x))
  if kind != 'posemb':
    has = {}
    for path, _ in jax.tree_util.tree_leaves_with_path(shapes):
      names = [str(k.key) for k in path]
      has.setdefault('/'.join(names[:-1]), set()).add(names[-1])
    for layer, names in has.items():
      core.check(('bias' in names) == c['bias'], f'{kind} block: the layers '
                 'have a bias if it is configured', layer=layer, names=names)
  params = jax.tree.map(
      lambda s: (rng.normal(size=np.shape(s)) * .6).astype(np.float32), shapes)
  got = np.asarray(m.apply(params, jnp.asarray(x)))
  p = params['params']
  x = x.astype(np.float64)
  if kind == 'posemb':
    expected = x + np.asarray(p['pos_embedding'], np.float64)
  elif kind in ('down', 'up'):
    y = nets.down(p, x, c, c['mode']) if kind == 'down' else nets.up(p, x, c)
    expected = nets.dense(p['out'], y)
  else:
    expected = getattr(nets, f'{kind}_block')(p, x, c)
  core.close(got, expected, f'{kind} block', rtol=2e-4,
             scale=1 + np.abs(expected).max())


def labels(case):
  out = []
  for k in ('kind', 'mode', 'train', 'debug'):
    if k in case:
      out.append(f'{k}={case[k]}')
  return out


SUBS = {
    'perm': core.Sub(
        perm_case(), run_perm, lambda c: [f"levels={len(c['sizes'])}"],
        lambda c: sum(s > 1 for s in c['sizes']) >= 2,
        'element permutation against the recursion over patches'),
    'transfer': core.Sub(
        transfer_case(), run_transfer, lambda c: [c['topo']],
        lambda c: c['renumber'] is not None, 'nodes of renumbered meshes'),
    'spectrum': core.Sub(
        spectrum_case(), run_spectrum, labels, lambda c: c['n'] >= 5,
        'bins of the wave numbers by loops over the modes'),
    'schedule': core.Sub(
        closure.schedule_case(), closure.run_schedule, None, lambda c: c['spe'] > 1,
        'closed form of the schedules'),
    'windows': core.Sub(
        windows_case(), run_windows, labels,
        lambda c: c['length'] - c['window'] >= c['stride'],
        'epochs of the input pipeline against slices of the files'),
    'pool': core.Sub(
        pool_case(), run_pool, labels,
        lambda c: max(c['window']) > 1 and c['heads'] > 1,
        'pooling by loops'),
    'blocks': core.Sub(
        blocks_case(), run_blocks, labels, lambda c: c['heads'] > 1,
        'attention blocks against float64 numpy'),
}
