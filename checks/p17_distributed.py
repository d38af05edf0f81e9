"""P17: distributed compilation and per-device scalars mean the local
computation."""

import functools

import numpy as np
from hypothesis import strategies as st

from vf import core, strat

RULE = ('A case is non-trivial if there are at least two devices, and the '
        'program has several arguments or the expression several operations.')
PLAN = [
    {'subs': {'programs': (90, 900), 'scalars': (70, 900)}, 'shards': (6, 12),
     'env': {'devices': 12}},
]
ASSUMPTIONS = [
    'Parameters which can be passed by position or keyword, and keyword-only '
    'parameters; sharded arguments have the axis size as their first '
    'dimension. Positional-only and variadic parameters are not generated.',
    'Expressions stay within 31 bits, without division by zero or negative '
    'shifts and exponents.']
NS = strat.shard_subset(range(1, 13), 3)

# ---------------------------------------------------------------------------
# Programs.
# ---------------------------------------------------------------------------

TREES = ['array', 'array', 'dict', 'pair']
STATICS = ['int', 'str', 'tuple', 'none']


@st.composite
def program(draw):
  n = draw(st.sampled_from(NS))
  k = draw(st.integers(0, 4))
  params, kwonly = [], False
  for i in range(k):
    kwonly = kwonly or draw(st.integers(0, 3)) == 0
    static = draw(st.booleans())
    params.append({
        'name': 'abcd'[i], 'kwonly': kwonly, 'static': static,
        'kind': draw(st.sampled_from(STATICS if static else TREES)),
        'default': draw(st.booleans() if static else st.sampled_from(
            [False, False, True])),
        'shape': draw(st.sampled_from([[], [2], [2, 3]])),
        'by': draw(st.sampled_from(['position', 'position', 'keyword'])),
        'omit': draw(st.booleans()),
        'type': draw(st.sampled_from(['float64', 'int32', 'float32']))})
  # no parameter without a default follows one with a default
  seen = False
  for p in params:
    if not p['kwonly']:
      if seen and not p['default']:
        p['kwonly_fix'] = True
      seen = seen or p['default']
  if any(p.pop('kwonly_fix', False) for p in params):
    for p in params:
      if not p['kwonly']:
        p['default'] = False
  auto = all(p['static'] == p['kwonly'] for p in params)
  return {'n': n, 'params': params, 'explicit': not auto or draw(
      st.booleans()), 'out': draw(st.sampled_from(['array', 'dict', 'tuple'])),
          'comm': draw(st.booleans()), 'calls': draw(st.integers(1, 2)),
          'seed': draw(strat.seeds)}


def static_value(rng, kind):
  if kind == 'int':
    return int(rng.integers(-3, 9))
  if kind == 'str':
    return 'xyz'[:int(rng.integers(0, 4))]
  if kind == 'tuple':
    return tuple(int(v) for v in rng.integers(0, 5, size=2))
  return None


def sharded_value(rng, p, n):
  mk = lambda: rng.integers(-5, 6, size=[n] + list(p['shape'])).astype(
      p['type'])
  return {'array': mk, 'dict': lambda: {'u': mk(), 'v': mk()},
          'pair': lambda: (mk(), mk())}[p['kind']]()


def weight_of(value):
  """What the program does with a static argument; fails for a tracer."""
  if value is None:
    return 11.
  if isinstance(value, str):
    return 3. + len(value)
  if isinstance(value, tuple):
    return float(sum(v * (i + 2) for i, v in enumerate(value)))
  if type(value) is not int:
    raise TypeError(f'a static argument is a {type(value)}')
  return float([value][0])


def leaves_of(tree):
  import jax
  return jax.tree_util.tree_leaves(tree)


def body(case, args, xp, index, psum):
  """The function on one device; `args` by name."""
  total = xp.zeros((), 'float64') + 1.
  out = []
  for i, p in enumerate(case['params']):
    v = args[p['name']]
    if p['static']:
      total = total * .5 + weight_of(v) * (i + 1)
    else:
      if p['kind'] == 'dict':
        assert sorted(v) == ['u', 'v']
        v = [v['u'], 2 * v['v']]
      elif p['kind'] == 'pair':
        v = [v[0], 3 * v[1]]
      else:
        v = [v]
      for j, l in enumerate(v):
        if l.shape != tuple(p['shape']):
          raise ValueError(f'shape {l.shape} on a device')
        total = total + (i + 2) * (j + 1) * xp.sum(l.astype('float64'))
        out.append(l * (i + 1))
  if case['comm']:
    total = total + psum(total) + index
  if case['out'] == 'dict':
    return {'total': total, 'parts': out}
  if case['out'] == 'tuple':
    return tuple([total] + out)
  return total


def run_program(case):
  import inspect

  import jax
  import jax.numpy as jnp
  from jax import lax
  from jax.sharding import Mesh
  from swirl_fem.communication.jit_distributed import jit_distributed
  n = case['n']
  rng = core.rng_of(case)
  params = case['params']

  # a function with the generated signature
  def generic(**kw):
    return body(case, kw, jnp, lax.axis_index('i') if case['comm'] else None,
                lambda x: lax.psum(x, 'i'))

  sig, star = [], False
  defaults = {}
  for p in params:
    if p['kwonly'] and not star:
      sig.append('*')
      star = True
    if p['default']:
      defaults[p['name']] = (static_value(rng, p['kind']) if p['static']
                             else sharded_value(rng, p, n))
      sig.append(f"{p['name']}=_defaults['{p['name']}']")
    else:
      sig.append(p['name'])
  names = [p['name'] for p in params]
  src = (f"def f({', '.join(sig)}):\n  return _generic("
         + ', '.join(f'{k}={k}' for k in names) + ')\n')
  scope = {'_generic': generic, '_defaults': defaults}
  exec(src, scope)  # pylint: disable=exec-used
  f = scope['f']
  mesh = Mesh(np.array(jax.devices()[:n]), 'i')
  kw = {}
  if case['explicit']:
    kw['static_argnames'] = [p['name'] for p in params if p['static']]
  g = jit_distributed(f, mesh, 'i', **kw)
  core.check(list(inspect.signature(g).parameters) == names,
             'signature of the compiled function')

  for _ in range(case['calls']):
    values, args, kwargs, positional = {}, [], {}, True
    for p in params:
      omit = p['default'] and p['omit']
      if omit:
        v = defaults[p['name']]
      elif p['static']:
        v = static_value(rng, p['kind'])
      else:
        v = sharded_value(rng, p, n)
      values[p['name']] = v
      if omit:
        positional = False
      elif positional and not p['kwonly'] and p['by'] == 'position':
        args.append(v)
      else:
        positional = False
        kwargs[p['name']] = v
    keys = list(kwargs)
    kwargs = {keys[i]: kwargs[keys[i]] for i in rng.permutation(len(keys))}
    got = g(*args, **kwargs)

    # the plain function, device by device
    def local(d):
      return {p['name']: values[p['name']] if p['static'] else
              jax.tree_util.tree_map(lambda a: a[d], values[p['name']])
              for p in params}
    plain = dict(case, comm=False)
    first = lambda o: o['total'] if case['out'] == 'dict' else (
        o[0] if case['out'] == 'tuple' else o)
    totals = [first(body(plain, local(d), np, None, None)) for d in range(n)]
    psum = sum(totals)
    outs = [body(case, local(d), np, d, lambda x: psum) for d in range(n)]
    want = jax.tree_util.tree_map(lambda *ls: np.stack(ls), *outs)
    core.check(jax.tree_util.tree_structure(got)
               == jax.tree_util.tree_structure(want), 'structure of the output')
    for a, b in zip(leaves_of(got), leaves_of(want)):
      core.close(a, b, 'output', rtol=1e-12, atol=1e-12)


def program_labels(case):
  ps = case['params']
  return [f"devices={case['n']}", f'params={len(ps)}'] + sorted({
      ('static' if p['static'] else 'sharded') + (
          ' keyword-only' if p['kwonly'] else '') for p in ps})


# ---------------------------------------------------------------------------
# Scalars.
# ---------------------------------------------------------------------------


def expr(depth):
  """Integer-valued expressions as nested lists."""
  base = st.one_of(
      st.sampled_from([['idx'], ['idx'], ['size']]),
      st.integers(-9, 9).map(lambda c: ['const', c]))
  if depth == 0:
    return base
  sub = expr(depth - 1)
  small = st.integers(1, 7)
  return st.one_of(
      base,
      st.tuples(st.sampled_from(['+', '-', '&', '|', '^', '*']), sub,
                sub).map(list),
      st.tuples(st.sampled_from(['//', '%']), sub, small).map(list),
      st.tuples(st.sampled_from(['safe//', 'safe%']), sub, sub).map(list),
      st.tuples(st.sampled_from(['<<', '>>']), sub, st.integers(0, 3)).map(
          list),
      st.tuples(st.just('**'), sub, st.integers(0, 2)).map(list),
      st.tuples(st.sampled_from(['r+', 'r-', 'r*', 'r&', 'r|', 'r^']),
                st.integers(-9, 9), sub).map(list),
      st.tuples(st.sampled_from(['r//', 'r%', 'r<<', 'r>>', 'r**']), small,
                sub).map(list),
      st.tuples(st.just('where'), condition(depth - 1), sub, sub).map(list),
      st.tuples(st.just('-bool'), sub, condition(depth - 1)).map(list))


def condition(depth):
  cmp = st.tuples(st.sampled_from(['<', '<=', '==', '!=', '>', '>=']),
                  expr(max(0, depth - 1)), st.one_of(
                      expr(max(0, depth - 1)), st.integers(-3, 9))).map(list)
  if depth <= 0:
    return cmp
  return st.one_of(cmp, st.tuples(
      st.sampled_from(['and', 'or', 'xor']), cmp, cmp).map(list))


@st.composite
def scalar_case(draw):
  return {'n': draw(st.sampled_from(NS)),
          'exprs': draw(st.lists(expr(3), min_size=3, max_size=6)),
          'conds': draw(st.lists(condition(2), min_size=1, max_size=3)),
          'div': draw(expr(1)), 'mode': draw(st.sampled_from(
              ['shard', 'vmap', 'pmap']))}


LIMIT = 2 ** 30


class TooLarge(Exception):
  pass


def evaluate(e, leaf, where, ints):
  """Evaluates on ints (the oracle) or on semi-traced scalars.

  `ints` is the list of values of all devices, which bounds the magnitude, or
  None for semi-traced scalars.
  """
  op = e[0]
  rec = lambda x: evaluate(x, leaf, where, ints) if isinstance(x, list) else x

  if op in ('idx', 'size', 'const'):
    return leaf(e)
  if op == 'where':
    return where(rec(e[1]), rec(e[2]), rec(e[3]))
  if op.startswith('safe'):
    a, b = rec(e[1]), rec(e[2])
    b = b * b + 1
    return a // b if op == 'safe//' else a % b
  if op.startswith('r') and op != 'r':
    c, y = e[1], rec(e[2])
    k = op[1:]
    if k in ('//', '%'):
      y = (y & 7) + 1
    elif k in ('<<', '>>'):
      y = y & 3
    elif k == '**':
      y = y & 3
    return {'+': lambda: c + y, '-': lambda: c - y, '*': lambda: c * y,
            '&': lambda: c & y, '|': lambda: c | y, '^': lambda: c ^ y,
            '//': lambda: c // y, '%': lambda: c % y, '<<': lambda: c << y,
            '>>': lambda: c >> y, '**': lambda: c ** y}[k]()
  a, b = rec(e[1]), rec(e[2])
  return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b,
          '-bool': lambda: a - b,
          '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b,
          '//': lambda: a // b, '%': lambda: a % b, '<<': lambda: a << b,
          '>>': lambda: a >> b, '**': lambda: a ** b, '<': lambda: a < b,
          '<=': lambda: a <= b, '==': lambda: a == b, '!=': lambda: a != b,
          '>': lambda: a > b, '>=': lambda: a >= b, 'and': lambda: a & b,
          'or': lambda: a | b, 'xor': lambda: a ^ b}[op]()


def oracle(e, n):
  """The value on each device, in plain Python integers; None if too large."""
  out = []
  for d in range(n):
    def leaf(x):
      return {'idx': d, 'size': n}[x[0]] if x[0] != 'const' else x[1]
    try:
      v = bounded(e, leaf)
    except TooLarge:
      return None
    out.append(v)
  return out


def bounded(e, leaf):
  """Like evaluate on ints, refusing large intermediate values."""
  if not isinstance(e, list):
    return e
  op = e[0]
  if op in ('idx', 'size', 'const'):
    return leaf(e)
  kids = [bounded(x, leaf) for x in e[1:]]
  if op.startswith('safe') and kids[1] ** 2 > LIMIT:
    raise TooLarge
  it = iter(kids)
  flat = [op] + [['const', next(it)] for _ in kids]
  if op in ('//', '%', '<<', '>>', '**'):
    flat[2] = kids[1]
  if op.startswith('r'):
    flat[1] = kids[0]
  v = evaluate(flat, lambda x: x[1],
               lambda c, x, y: x if c else y, [])
  if abs(v) > LIMIT:
    raise TooLarge
  return v


def run_scalars(case):
  import jax
  import jax.numpy as jnp
  from jax.experimental.shard_map import shard_map
  from jax.sharding import Mesh, PartitionSpec
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as S
  n = case['n']
  todo = []
  for e in case['exprs'] + case['conds']:
    want = oracle(e, n)
    if want is not None:
      todo.append((e, want))
  todo = todo or [(['idx'], list(range(n)))]
  static = {}

  def f(x):
    def leaf(e):
      if e[0] == 'idx':
        return S.axis_index('i')
      if e[0] == 'size':
        return S.axis_size(axis_name='i')
      return S.constant(e[1], 'i')
    locs = []
    for k, (e, _) in enumerate(todo):
      s = evaluate(e, leaf, S.where, None)
      static[k] = s.global_
      locs.append(jnp.asarray(s.local) + 0 * x.astype(jnp.int32).sum())
    # a true division
    num = leaf(['idx']) * 3 - 4
    q = num / (leaf(['idx']) + leaf(['size']))
    r = 7 / (leaf(['idx']) + 1)
    static['q'], static['r'] = q.global_, r.global_
    tail = (q.local + 0. * x.sum(), r.local + 0. * x.sum())
    keep = lambda v: jnp.reshape(jnp.asarray(v), (1,) if mode == 'shard'
                                 else ())
    return [keep(v) for v in locs], [keep(v) for v in tail]

  mode = case['mode']
  x = np.zeros((n, 1))
  if mode == 'vmap':
    g = jax.vmap(f, axis_name='i')
  elif mode == 'pmap':
    g = jax.pmap(f, axis_name='i', devices=jax.devices()[:n])
  else:
    mesh = Mesh(np.array(jax.devices()[:n]), 'i')
    g = jax.jit(shard_map(f, mesh=mesh, in_specs=PartitionSpec('i'),
                          out_specs=PartitionSpec('i'), check_rep=False))
  locs, tail = g(x)
  for k, (e, want) in enumerate(todo):
    want = np.array([int(v) for v in want])
    core.check(isinstance(static[k], np.ndarray), 'the global view is concrete')
    core.same(np.asarray(static[k]).astype(int), want,
              f'global values of {e}')
    core.same(np.asarray(locs[k]).astype(int), want, f'local values of {e}')
  i = np.arange(n)
  for key, got, want in (('q', tail[0], (3 * i - 4) / (i + n)),
                         ('r', tail[1], 7 / (i + 1))):
    core.close(static[key], want, f'global quotient {key}', rtol=1e-6)
    core.close(got, want, f'local quotient {key}', rtol=1e-6)


def size(e):
  return 1 + sum(size(x) for x in e[1:]) if isinstance(e, list) else 0


def scalar_labels(case):
  ops = set()

  def walk(e):
    if isinstance(e, list):
      ops.add(e[0])
      for x in e[1:]:
        walk(x)
  for e in case['exprs'] + case['conds']:
    walk(e)
  return [f"devices={case['n']}"] + [f'op {o}' for o in sorted(ops)]


SUBS = {
    'programs': core.Sub(program(), run_program, program_labels,
                         lambda c: c['n'] > 1 and len(c['params']) > 1,
                         'functions with generated signatures and calls'),
    'scalars': core.Sub(scalar_case(), run_scalars, scalar_labels,
                        lambda c: c['n'] > 1 and max(map(size, c['exprs'])) > 3,
                        'expressions of semi-traced scalars'),
}
