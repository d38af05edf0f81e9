"""P15: the crystal router delivers every item once, intact, to its target."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, strat

RULE = ('A case is non-trivial if there are at least two devices, and items '
        'with different targets or buffers which have to grow.')
PLAN = [
    {'subs': {'route': (30, 400)}, 'shards': (12, 16), 'env': {'devices': 16}},
    {'subs': {'few': (40, 400)}, 'shards': (2, 4), 'env': {'devices': 4},
     'tag': 'few'},
    {'subs': {'many': (12, 120)}, 'shards': (3, 6), 'env': {'devices': 5},
     'tag': 'many'},
    {'subs': {'route': (25, 250)}, 'shards': (1, 4), 'env': {
        'devices': 16, 'x64': False}, 'tag': 'x32'},
]
ASSUMPTIONS = ['Up to 16 devices (simulated on the host); the counts, sources '
               'and targets are integers, and targets of valid items are '
               'devices.']

# devices, length of the local arrays, payload
CONFIGS = [
    (5, 4, 'tree'), (6, 1, 'wide'), (7, 3, 'int'), (8, 4, 'tree'),
    (9, 2, 'bool'), (11, 3, 'int'), (13, 4, 'int'), (16, 2, 'tree'),
    (5, 5, 'wide'), (6, 4, 'int'), (10, 3, 'int'),
    (12, 1, 'int'), (14, 2, 'wide'), (15, 2, 'int'), (7, 6, 'tree'),
]
MINE = strat.shard_subset(CONFIGS, 1)
FEW = strat.shard_subset([
    (1, 3, 'int'), (2, 4, 'tree'), (3, 3, 'wide'), (4, 2, 'int'),
    (1, 2, 'tree'), (2, 1, 'int'), (3, 7, 'bool'), (4, 5, 'tree')], 4)
MANY = strat.shard_subset([
    (2, 300, 'special'), (3, 129, 'int'), (5, 140, 'wide'), (2, 33000, 'int'),
    (4, 70, 'special'), (3, 600, 'bool')], 2)


# each type needs a compilation of its own
TYPES = strat.shard_subset(['int32', 'int64', 'int32', 'uint8', 'int16'], 1)


@st.composite
def case(draw, configs=MINE):
  n, m, kind = draw(st.sampled_from(configs))
  return {'n': n, 'm': m, 'kind': kind,
          'count': draw(st.sampled_from(['full', 'random', 'random', 'few',
                                         'empty', 'one'])),
          'target': draw(st.sampled_from(
              ['random', 'random', 'single', 'self', 'next', 'reverse',
               'halves', 'skewed', 'last'])),
          'ntype': draw(st.sampled_from(['int32', 'int32', 'int64'])),
          'ttype': draw(st.sampled_from(TYPES)),
          'garbage': draw(st.sampled_from(['zero', 'minus', 'device', 'big'])),
          'source': draw(st.sampled_from([True, True, False])),
          'back': draw(st.booleans()), 'seed': draw(strat.seeds)}


@functools.lru_cache(maxsize=None)
def router(n):
  import jax
  from swirl_fem.communication.crystal_router import crystal_router_setup
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), 'i')
  return crystal_router_setup(mesh, 'i')


def counts(case, rng):
  n, m = case['n'], case['m']
  how = case['count']
  if how == 'full':
    return np.full(n, m)
  if how == 'random':
    return rng.integers(0, m + 1, size=n)
  if how == 'few':
    return np.where(rng.random(n) < .3, rng.integers(0, m + 1, size=n), 0)
  if how == 'one':
    return np.where(np.arange(n) == rng.integers(n), m, 0)
  return np.zeros(n, int)


def targets(case, rng):
  n, m = case['n'], case['m']
  how = case['target']
  i = np.arange(n)[:, None] + np.zeros((n, m), int)
  if how == 'random':
    return rng.integers(0, n, size=(n, m))
  if how == 'single':
    return np.full((n, m), rng.integers(n))
  if how == 'last':
    return np.full((n, m), n - 1)
  if how == 'self':
    return i
  if how == 'next':
    return (i + 1) % n
  if how == 'reverse':
    return n - 1 - i
  if how == 'halves':
    return np.where(i < n // 2, rng.integers(n // 2, n, size=(n, m)),
                    rng.integers(0, max(1, n // 2), size=(n, m)))
  hot = rng.integers(n)
  return np.where(rng.random((n, m)) < .7, hot, rng.integers(0, n,
                                                             size=(n, m)))


def payload(case, rng):
  n, m, kind = case['n'], case['m'], case['kind']
  ids = np.arange(1, n * m + 1).reshape(n, m)
  if kind == 'int':
    # repeated values, so that multisets matter
    return rng.integers(0, 4, size=(n, m)).astype(np.int32)
  if kind == 'bool':
    return [rng.random((n, m)) < .5, ids.astype(np.int16)]
  if kind == 'special':
    x = ids[..., None] * np.array([1., -1e300])
    odd = rng.random(x.shape) < .3
    return {'x': np.where(odd, rng.choice([np.nan, np.inf, -0., 5e-324], size=(
        n, m, 2)), x), 'y': ids + 2 ** 60, 'z': (ids * 2 ** 20).astype(
            np.uint32)}
  if kind == 'wide':
    return {'x': ids[..., None] * np.array([1., 100.]) + .5,
            'y': ids.astype(np.float32)}
  return {'a': ids.astype(np.int32), 'b': (
      -ids.astype(np.float32) / 2, ids.astype(np.uint8)),
          'c': rng.normal(size=(n, m, 2, 3)).astype(np.float32)}


def packed(leaves, j, count, tag=None):
  """The items of device j as sorted rows of bytes."""
  cols = [np.ascontiguousarray(np.asarray(l)[j, :count]) for l in leaves]
  if tag is not None:
    cols.append(np.asarray(tag)[j, :count].astype(np.int64))
  rows = np.concatenate(
      [c.view(np.uint8).reshape(count, -1) if count else
       np.zeros((0, 1), np.uint8) for c in cols], axis=1)
  return arrange(rows)


def arrange(rows):
  rows = np.ascontiguousarray(rows)
  if len(rows) < 2:
    return rows
  return rows[np.argsort(rows.view(f'S{rows.shape[1]}')[:, 0])]


def run(case):
  import jax
  rng = core.rng_of(case)
  n, m = case['n'], case['m']
  cnt = counts(case, rng)
  tgt = targets(case, rng)
  data = payload(case, rng)
  invalid = np.arange(m) >= cnt[:, None]
  bad = {'zero': 0, 'minus': -1, 'big': 10 ** 6,
         'device': rng.integers(0, n, size=(n, m))}[case['garbage']]
  tgt = np.where(invalid, bad, tgt).astype(case['ttype'])
  cnt = cnt.astype(case['ntype'])
  x64 = jax.config.jax_enable_x64
  if not x64:
    data = jax.tree_util.tree_map(
        lambda a: a.astype({'float64': np.float32, 'int64': np.int32}.get(
            a.dtype.name, a.dtype)), data)
    cnt = cnt.astype(np.int32)
    tgt = tgt.astype(np.int32)
  leaves = [np.asarray(l) for l in jax.tree_util.tree_leaves(data)]
  valid = ~invalid
  of = np.arange(n)[:, None] + np.zeros((n, m), int)

  def expected(q, where, tag):
    """The items with the given mask."""
    cols = [np.ascontiguousarray(l[where]) for l in leaves]
    if tag is not None:
      cols.append(tag[where].astype(np.int64))
    k = int(where.sum())
    return arrange(np.concatenate(
        [c.view(np.uint8).reshape(k, -1) if k else np.zeros((0, 1), np.uint8)
         for c in cols], axis=1))

  route = router(n)
  copies = core.snapshot(tgt, cnt, *jax.tree_util.tree_leaves(data))

  def received(n_out, out, source, what, masks, tag):
    n_out = np.asarray(n_out)
    core.same(n_out, np.array([w.sum() for w in masks]).astype(n_out.dtype),
              f'{what}: number of items received')
    res = jax.tree_util.tree_leaves(out)
    for l, o in zip(leaves, res):
      core.check(o.dtype == l.dtype and o.shape[0] == n
                 and o.shape[2:] == l.shape[2:] and o.shape[1] >= n_out.max(),
                 f'{what}: type or shape of the data', got=(o.shape, o.dtype),
                 sent=(l.shape, l.dtype))
    core.check(jax.tree_util.tree_structure(out)
               == jax.tree_util.tree_structure(data), f'{what}: structure')
    res = [np.asarray(o) for o in res]
    if source is not None:
      source = np.asarray(source)
    for p in range(n):
      got = packed(res, p, int(n_out[p]), source)
      exp = expected(p, masks[p], None if source is None else tag)
      differ = np.flatnonzero(np.any(got != exp, axis=1))
      core.check(not len(differ), f'{what}: items of device {p}',
                 got=got[differ[:2]].tolist(), expected=exp[differ[:2]].tolist())

  to = [valid & (tgt == p) for p in range(n)]
  if case['source']:
    n_out, out, source = route(cnt, data, tgt)
    received(n_out, out, source, 'routed', to, of)
    if case['back']:
      n2, out2, src2 = route(n_out, out, source)
      received(n2, out2, src2, 'routed back',
               [valid & (of == p) for p in range(n)], tgt)
  else:
    res = route(cnt, data, tgt, return_source=False)
    core.check(len(res) == 2, 'returns the source although it should not')
    received(res[0], res[1], None, 'routed without source', to, None)
  core.unchanged([tgt, cnt] + jax.tree_util.tree_leaves(data), copies, 'route')


def labels(case):
  return [f"devices={case['n']}", f"target={case['target']}",
          f"count={case['count']}", f"payload={case['kind']}"]


def nontrivial(case):
  return case['n'] > 1 and case['count'] != 'empty' and case['target'] != 'self'


SUBS = {'route': core.Sub(case(), run, labels, nontrivial,
                          'one or two calls of a router which is reused'),
        'few': core.Sub(case(FEW), run, labels, nontrivial,
                        'the same for up to four devices'),
        'many': core.Sub(case(MANY), run, labels, nontrivial,
                         'the same for many items on a device, with all the '
                         'values of floating point')}
