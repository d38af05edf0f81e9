"""P16: parallel scan and reduce equal their sequential definition."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, strat

RULE = 'A case is non-trivial if there are at least three devices.'
PLAN = [
    {'subs': {'scan': (60, 700)}, 'shards': (8, 16), 'env': {'devices': 16}},
    {'subs': {'scan': (30, 300)}, 'shards': (2, 4), 'env': {
        'devices': 16, 'x64': False}, 'tag': 'x32'},
]
ASSUMPTIONS = [
    'Up to 16 devices (simulated on the host), and 33 indices of a batched '
    'axis. Floating-point values of sums and products are chosen such that '
    'every partial result is exact. No NaNs.']
OPS = ['add', 'multiply', 'maximum', 'minimum', 'bitwise_and', 'bitwise_or',
       'bitwise_xor']
TYPES = {'int': ['int32', 'int64', 'int8', 'uint8', 'uint32', 'int16'],
         'float': ['float64', 'float32', 'float16', 'bfloat16'],
         'bool': ['bool']}
NS = strat.shard_subset(list(range(1, 17)) + [19, 33], 4)


@st.composite
def leaf(draw, op):
  kinds = ['int']
  if not op.startswith('bitwise'):
    kinds.append('float')
  if op.startswith('bitwise') or op in ('maximum', 'minimum'):
    kinds.append('bool')
  t = draw(st.sampled_from(TYPES[draw(st.sampled_from(kinds))]))
  return {'type': t, 'shape': draw(st.sampled_from([[], [3], [2, 2], [7]])),
          'extreme': draw(st.booleans())}


@st.composite
def case(draw):
  n = draw(st.sampled_from(NS))
  op = draw(st.sampled_from(OPS))
  modes = ['vmap'] if n > 16 else ['shard', 'shard', 'pmap', 'vmap', 'grid']
  mode = draw(st.sampled_from(modes))
  if mode == 'grid' and n > 8:
    mode = 'shard'
  return {'n': n, 'op': op, 'mode': mode,
          'call': draw(st.sampled_from(['scan', 'both', 'reduce'])),
          'tree': draw(st.sampled_from(['array', 'array', 'dict', 'nested'])),
          'leaves': draw(st.lists(leaf(op), min_size=3, max_size=3)),
          'seed': draw(strat.seeds)}


def values(rng, n, op, l):
  import ml_dtypes
  t = np.dtype(ml_dtypes.bfloat16) if l['type'] == 'bfloat16' else np.dtype(
      l['type'])
  shape = [n] + list(l['shape'])
  if t.kind == 'b':
    return rng.random(shape) < .5
  if t.kind in 'iu':
    info = np.iinfo(t)
    if l['extreme']:
      v = rng.integers(info.min, info.max, size=shape, dtype=t, endpoint=True)
      pick = rng.random(shape)
      v = np.where(pick < .2, info.min, np.where(pick > .8, info.max, v))
    else:
      v = rng.integers(0 if t.kind == 'u' else -9, 10, size=shape)
    return v.astype(t)
  # floating point
  if op == 'add':
    v = rng.integers(-3, 4, size=shape)
    if l['extreme']:
      v = v * (2. if l['type'] in ('float16', 'bfloat16') else 2. ** 18)
  elif op == 'multiply':
    v = rng.choice([-1., 1., 1., 2., .5], size=shape)
    if l['extreme']:
      v = v * rng.choice([0., 1., 1., 1.], size=shape)
  else:
    v = rng.normal(size=shape)
    if l['extreme']:
      import jax.numpy as jnp
      f = jnp.finfo(t)
      ends = np.array([-np.inf, np.inf, float(f.min), float(f.max), 0., -1.])
      v = np.where(rng.random(shape) < .6, rng.choice(ends, size=shape), v)
      if rng.random() < .3:
        v[:] = -np.inf if op == 'maximum' else np.inf
  return v.astype(t)


IDENTITY = {'add': lambda t: 0, 'multiply': lambda t: 1,
            'bitwise_or': lambda t: 0, 'bitwise_xor': lambda t: 0}


def identity(op, t):
  if op in IDENTITY:
    return IDENTITY[op](t)
  if op == 'bitwise_and':
    return True if t.kind == 'b' else ~np.zeros((), t)
  low = op == 'maximum'
  if t.kind == 'b':
    return not low
  if t.kind in 'iu':
    return np.iinfo(t).min if low else np.iinfo(t).max
  return -np.inf if low else np.inf


def oracle(v, op):
  f = getattr(np, op)
  acc = np.full(v.shape[1:], identity(op, v.dtype)).astype(v.dtype)
  scan = []
  with np.errstate(all='ignore'):
    for row in v:
      scan.append(acc)
      acc = f(acc, row).astype(v.dtype)
  return np.stack(scan), np.stack([acc] * len(v))


def tree_of(kind, leaves):
  if kind == 'array':
    return leaves[0]
  if kind == 'dict':
    return {'p': leaves[0], 'q': leaves[1]}
  return [{'p': leaves[0]}, (leaves[1], leaves[2]), None]


@functools.lru_cache(maxsize=None)
def compiled(n, mode, op, call):
  import jax
  import jax.numpy as jnp
  from jax.experimental.shard_map import shard_map
  from jax.sharding import Mesh, PartitionSpec
  from swirl_fem.communication import pscan as ps
  o = getattr(jnp, op)

  def f(x):
    if call == 'scan':
      return ps.pscan(x, o, 'i')
    if call == 'both':
      return ps.pscan(x, op=o, axis_name='i', reduction=True)
    return ps.preduce(x, o, 'i')

  if mode == 'vmap':
    return jax.jit(jax.vmap(f, axis_name='i'))
  if mode == 'pmap':
    return jax.pmap(f, axis_name='i', devices=jax.devices()[:n])
  if mode == 'shard':
    mesh = Mesh(np.array(jax.devices()[:n]), 'i')
    return jax.jit(shard_map(f, mesh=mesh, in_specs=PartitionSpec('i'),
                             out_specs=PartitionSpec('i'), check_rep=False))
  # one axis of a two-dimensional grid of devices
  mesh = Mesh(np.array(jax.devices()[:2 * n]).reshape(2, n), ('j', 'i'))
  spec = PartitionSpec('j', 'i')
  return jax.jit(shard_map(f, mesh=mesh, in_specs=spec, out_specs=spec,
                           check_rep=False))


def run(case):
  import jax
  rng = core.rng_of(case)
  n, op, mode = case['n'], case['op'], case['mode']
  x64 = jax.config.jax_enable_x64
  rows = 2 if mode == 'grid' else 1
  vals = []
  for l in case['leaves']:
    if not x64 and l['type'] in ('int64', 'float64'):
      l = dict(l, type=l['type'][:-2] + '32')
    vals.append([values(rng, n, op, l) for _ in range(rows)])
  pack = (lambda v: np.stack(v)) if rows > 1 else (lambda v: v[0])
  # In a grid or shard, the mapped axes remain as axes of size one.
  tree = tree_of(case['tree'], [pack(v) for v in vals])
  scans = tree_of(case['tree'], [pack([oracle(r, op)[0] for r in v])
                                 for v in vals])
  reds = tree_of(case['tree'], [pack([oracle(r, op)[1] for r in v])
                                for v in vals])
  out = compiled(n, mode, op, case['call'])(tree)
  def cmp(got, want, what):
    core.check(jax.tree_util.tree_structure(got)
               == jax.tree_util.tree_structure(want), f'{what}: structure')
    for g, w in zip(jax.tree_util.tree_leaves(got),
                    jax.tree_util.tree_leaves(want)):
      g = np.asarray(g)
      core.check(g.dtype == w.dtype, f'{what}: type', got=g.dtype,
                 expected=w.dtype)
      core.same(g, w, f'{what} ({op}, {w.dtype}, {n} devices)')
  if case['call'] == 'scan':
    cmp(out, scans, 'scan')
  elif case['call'] == 'both':
    core.check(isinstance(out, tuple) and len(out) == 2, 'a pair is returned')
    cmp(out[0], scans, 'scan')
    cmp(out[1], reds, 'reduction with the scan')
  else:
    cmp(out, reds, 'reduction')


def labels(case):
  return [f"devices={case['n']}", f"op={case['op']}", f"mode={case['mode']}",
          f"call={case['call']}"]


def nontrivial(case):
  return case['n'] > 2


SUBS = {'scan': core.Sub(case(), run, labels, nontrivial,
                         'scans and reductions of trees of arrays')}
