"""P35: calls don't influence each other, and leave their arguments alone."""

import contextlib
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, gmsh, sem as vsem, strat

RULE = ('A case is non-trivial if it has at least two different calls of the '
        'same function.')
PLAN = [
    {'subs': {'tables': (120, 1200), 'meshes': (60, 500)}, 'shards': (2, 4),
     'env': {'x64': True}},
    {'subs': {'operators': (8, 60), 'solvers': (8, 80)}, 'shards': (3, 6),
     'env': {'x64': True}, 'tag': 'operators'},
    {'subs': {'training': (14, 140)}, 'shards': (2, 3), 'env': {'x64': False},
     'tag': 'training'},
    {'subs': {'devices': (10, 100)}, 'shards': (2, 3),
     'env': {'x64': True, 'devices': 4}, 'tag': 'devices'},
]
ASSUMPTIONS = [
    'The caller does not write to arrays which it has been given, or has '
    'passed on. Files are closed before they are read.',
    'The reference of each call is the same code, imported anew for this '
    'call.']


# ---------------------------------------------------------------------------
# Fresh copies of the package
# ---------------------------------------------------------------------------


@contextlib.contextmanager
def fresh():
  """All imports of the package inside give new modules."""
  from absl import flags
  ours = lambda k: k == 'swirl_fem' or k.startswith('swirl_fem.')
  old = {k: v for k, v in sys.modules.items() if ours(k)}
  for k in old:
    del sys.modules[k]
  defs = {n: getattr(flags, n) for n in dir(flags) if n.startswith('DEFINE_')}

  def wrap(f):
    def define(name, *args, **kw):
      if name in flags.FLAGS:
        return flags.FlagHolder(flags.FLAGS, flags.FLAGS[name])
      return f(name, *args, **kw)
    return define

  for n, f in defs.items():
    setattr(flags, n, wrap(f))
  try:
    yield
  finally:
    for n, f in defs.items():
      setattr(flags, n, f)
    for k in [k for k in sys.modules if ours(k)]:
      del sys.modules[k]
    sys.modules.update(old)


class Context:
  """Of a sequence of calls: its objects, its folder and its arguments."""

  def __init__(self, folder, shared):
    self.folder, self.shared = folder, shared
    self.objects, self.args = {}, []

  def get(self, key, make):
    """An object which is created once, and used by several calls."""
    if not self.shared:
      return make()
    if key not in self.objects:
      self.objects[key] = make()
    return self.objects[key]

  def arg(self, a):
    """Registers an array which must not be modified."""
    self.args.append((a, np.array(a, copy=True)))
    return a

  def intact(self, what):
    for a, b in self.args:
      core.check(np.array_equal(a, b, equal_nan=b.dtype.kind in 'fc'),
                 'an argument was modified', by=what)


def leaves(tree):
  """Arrays of a result, in a fixed order."""
  if tree is None:
    return []
  if isinstance(tree, dict) or hasattr(tree, 'items'):
    return [l for k in sorted(tree) for l in leaves(tree[k])]
  if isinstance(tree, (list, tuple)):
    return [l for t in tree for l in leaves(t)]
  return [tree]


def copies(tree):
  return [np.array(l) if not isinstance(l, str) else l for l in leaves(tree)]


def agree(got, want, msg):
  core.check(len(got) == len(want), msg + ': number of arrays', got=len(got),
             want=len(want))
  for a, b in zip(got, want):
    if isinstance(b, str):
      core.check(a == b, msg, got=a, want=b)
      continue
    core.check(a.shape == b.shape and a.dtype == b.dtype, msg + ': shape/type',
               got=(a.shape, a.dtype), want=(b.shape, b.dtype))
    if a.dtype.kind not in 'fcV':
      core.check(np.array_equal(a, b), msg, got=a, want=b)
      continue
    double = b.dtype in (np.float64, np.complex128)
    a, b = a.astype(np.complex128), b.astype(np.complex128)
    if np.array_equal(a, b, equal_nan=True):
      continue
    tol = 1e-9 if double else 1e-4
    ok = np.isfinite(b)
    core.check(np.array_equal(ok, np.isfinite(a)), msg + ': finite values')
    size = np.abs(b[ok]).max() if ok.any() else 0.
    core.check(np.all(np.abs(a - b)[ok] <= tol * size), msg, got=a, want=b)


def run(case):
  folder = tempfile.mkdtemp(prefix='verif_p35_')
  try:
    ctx = Context(folder, True)
    kept = []
    for i in case['order']:
      op = case['ops'][i % len(case['ops'])]
      what = f"{op['op']} (call {len(kept)})"
      result = OPS[op['op']](op, ctx)
      kept.append((what, op, result, copies(result)))
      ctx.intact(what)
    for what, op, result, first in kept:
      agree(copies(result), first, f'the result of {what}, which was changed '
            'by a later call')
    want = {}
    for what, op, result, first in kept:
      key = repr(sorted(op.items()))
      if key not in want:
        with fresh():
          want[key] = copies(OPS[op['op']](op, Context(folder, False)))
      agree(first, want[key], f'the result of {what}, other than without the '
            'previous calls')
  finally:
    shutil.rmtree(folder, ignore_errors=True)


# ---------------------------------------------------------------------------
# Tables
# ---------------------------------------------------------------------------


def op_nodes(o, ctx):
  q = gen.quad1d(o['kind'], o['n'])
  p = gen.nodes1d(o['kind'], o['n'])
  return [p.node_values, np.array(p.is_continuous()), q.weights,
          q.weights_nd(o['d']), q.weights_nd(1), q.nodes.node_values]


def op_interpolate(o, ctx):
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D
  grid = gen.nodes1d(o['kind'], o['n'])
  if o['to'] == 'one':
    ev = Nodes1D.create_single_point(np.float64(o['at']))
  else:
    ev = gen.nodes1d(o['to'], o['m'])
  b = BarycentricInterpolator(ndim=o['d'], gridpoints_1d=grid, evalpoints_1d=ev)
  x = ctx.arg(core.rng_of(o).normal(size=o['n'] ** o['d']))
  return [b.interpolation_matrix(), b.interpolation_matrix_grad(),
          b.interpolate(x), b.interpolate_grad(x)]


def op_coefficients(o, ctx):
  from swirl_fem.navier_stokes import navier_stokes as ns
  return [ns.extk_coeffs(o['k']), ns.bdfk_coeffs(o['k'])]


def op_facets(o, ctx):
  from swirl_fem.common import facet_util
  table = facet_util.get_orderings_mapping(ndim=o['d'], num_points_1d=o['n'])
  return [np.array([list(k) + list(np.ravel(table[k])) for k in sorted(table)])]


kinds = st.sampled_from(['nc', 'gll', 'gl'])


@st.composite
def tables_op(draw):
  op = draw(st.sampled_from(['nodes', 'interpolate', 'interpolate',
                             'coefficients', 'facets']))
  if op == 'nodes':
    return {'op': op, 'kind': draw(kinds), 'n': draw(st.integers(2, 4)),
            'd': draw(st.integers(1, 3))}
  if op == 'interpolate':
    return {'op': op, 'kind': draw(kinds), 'n': draw(st.integers(2, 4)),
            'd': draw(st.integers(1, 2)), 'm': draw(st.integers(2, 4)),
            'to': draw(st.sampled_from(['one', 'nc', 'gll', 'gl'])),
            'at': draw(st.sampled_from([-1., .25, 1., 1.5])),
            'seed': draw(strat.seeds)}
  if op == 'coefficients':
    return {'op': op, 'k': draw(st.integers(1, 4))}
  return {'op': op, 'd': draw(st.integers(1, 2)), 'n': draw(st.integers(1, 4))}


# ---------------------------------------------------------------------------
# Meshes
# ---------------------------------------------------------------------------


def premesh_leaves(p):
  return [p.node_coords, p.elements, p.periodic_links, p.partitions,
          dict(p.physical_groups or {}), p.gridpoints_1d.node_values]


def mesh_leaves(m):
  return [m.node_coords, m.elements, m.node_indices, dict(m.physical_masks),
          m.exchange_gather_indices, m.exchange_unique_indices]


def premesh_of(o, ctx, key='mesh', **replace):
  def make():
    m = gen.build(o[key])
    kw = dict(node_coords=ctx.arg(np.array(m.coords)),
              elements=ctx.arg(np.array(m.elements, np.int32)),
              physical_groups={k: ctx.arg(np.array(v, np.int32))
                               for k, v in m.groups.items()})
    if m.links is not None:
      kw['periodic_links'] = ctx.arg(np.array(m.links, np.int32))
    if m.parts is not None:
      kw['partitions'] = ctx.arg(np.array(m.parts, np.int32))
    kw.update(replace)
    return gen.to_premesh(m, **kw)
  return ctx.get('premesh' + repr(o[key]), make)


def op_refine(o, ctx):
  import jax.numpy as jnp
  from swirl_fem.core.mesh_refiner import refine_premesh
  p = premesh_of(o, ctx)
  r = refine_premesh(p, gen.nodes1d(o['kind'], o['n']))
  out = [premesh_leaves(p), premesh_leaves(r)]
  if o['finalize'] and not r.is_partitioned():
    mesh = r.finalize()
    rng = core.rng_of(o)
    u = jnp.asarray(rng.normal(size=mesh.num_nodes))
    out += [mesh_leaves(mesh), mesh.gather(u), mesh.exchange(u),
            mesh.scatter(jnp.asarray(rng.normal(size=mesh.elements.shape)))]
  return out


def op_cube(o, ctx):
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  p = unit_cube_mesh(o['n'], ndim=o['d'], a=o['a'],
                     b=o['a'] + 1., periodic_dims=tuple(
                         i for i in o['periodic'] if i < o['d']))
  return [premesh_leaves(p), mesh_leaves(p.finalize())]


def op_partition(o, ctx):
  from swirl_fem.common import mesh_partitioner
  p = premesh_of(o, ctx)
  r = mesh_partitioner.partition(p, o['k'])
  return [premesh_leaves(p), premesh_leaves(r)]


def op_indices(o, ctx):
  from swirl_fem.core import gather_scatter as gs
  rng = core.rng_of(o)
  n, k = o['n'], o['k']
  links = ctx.arg(rng.integers(0, n, size=(k, 2, 2)).astype(np.int32))
  nodes = ctx.arg(np.arange(n, dtype=np.int32))
  unique = gs.get_unique_node_indices(node_indices=nodes, periodic_links=links)
  out = [unique, gs.get_exchange_indices(ctx.arg(np.array(unique)))]
  parts = ctx.arg(np.sort(rng.integers(0, k, size=n)) if rng.random() < .5
                  else np.arange(n) % k)
  groups = gs.group_by_partitions(parts)
  elements = ctx.arg(np.stack([rng.permutation(n) for _ in range(k)]).reshape(
      k, n, 1).astype(np.int32))
  local = gs.get_local_elements(elements)
  return out + [groups, local]


def op_file(o, ctx):
  from swirl_fem.common import mesh_reader
  m = gen.build(o['mesh'])
  path = os.path.join(ctx.folder, 'mesh.msh')
  N, d = len(m.coords), m.ndim
  x = np.zeros((N, 3))
  x[:, :d] = m.coords
  gmsh.write(path, o['fmt'], x, np.arange(1, N + 1), [(d, 1, 0, N)],
             [gmsh.Block(d, 1, np.asarray(m.elements))], None)
  return premesh_leaves(mesh_reader.read(path, ndim=d))


@st.composite
def meshes_case(draw):
  """Meshes which differ in their coordinates, numbering, groups or links."""
  first = draw(strat.free_mesh(dims=(1, 2, 2, 3), free_links=True))
  pool = [first]
  for _ in range(draw(st.integers(1, 2))):
    other = draw(strat.free_mesh(dims=(1, 2)))
    keys = draw(st.sets(st.sampled_from(
        ['geom', 'renum', 'reorder', 'reorient', 'groups', 'periodic',
         'free_links']), min_size=1, max_size=4))
    new = dict(first)
    for k in sorted(keys):
      new.pop(k, None)
      if k == 'free_links':
        new[k] = {'count': 2, 'seed': draw(strat.seeds)}
      elif k == 'periodic' and first['base']['kind'] == 'grid':
        d = len(first['base']['n'])
        new[k] = sorted(draw(st.sets(st.integers(0, d - 1))))
      elif k in other and k != 'periodic':
        new[k] = other[k]
    pool.append(new)
  ops = []
  for _ in range(draw(st.integers(2, 5))):
    op = draw(st.sampled_from(['refine', 'refine', 'refine', 'cube',
                               'partition', 'indices', 'file']))
    o = {'op': op}
    if op in ('refine', 'partition', 'file'):
      o['mesh'] = draw(st.sampled_from(pool))
    if op == 'refine':
      o.update(kind=draw(kinds), n=draw(st.integers(2, 4)), seed=draw(
          strat.seeds), finalize=draw(st.booleans()))
    elif op == 'cube':
      o.update(n=draw(st.integers(2, 3)), d=draw(st.integers(1, 3)),
               a=draw(st.sampled_from([0., 1.])), periodic=sorted(draw(
                   st.sets(st.integers(0, 2)))))
    elif op == 'partition':
      o['k'] = draw(st.integers(1, 3))
    elif op == 'indices':
      o.update(n=draw(st.integers(4, 6)), k=draw(st.integers(1, 3)),
               seed=draw(strat.seeds))
    else:
      o['fmt'] = draw(st.sampled_from(['2.2', '4.1']))
    ops.append(o)
  return finish(draw, ops)


def finish(draw, ops):
  order = list(range(len(ops)))
  order += draw(st.lists(st.integers(0, len(ops) - 1), min_size=1, max_size=3))
  return {'ops': ops, 'order': order}


@st.composite
def tables_case(draw):
  return finish(draw, draw(st.lists(tables_op(), min_size=2, max_size=6)))


# ---------------------------------------------------------------------------
# Operators
# ---------------------------------------------------------------------------


def op_integrate(o, ctx):
  """Integrals, gradients and covectors in one of several spaces."""
  import jax.numpy as jnp
  from swirl_fem.core import fespace as fs
  from swirl_fem.core.mesh_refiner import refine_premesh

  def make():
    p = premesh_of(o, ctx)
    mesh = refine_premesh(p, gen.nodes1d('gll', o['n'])).finalize()
    return fs.FiniteElementSpace.create(mesh, gen.quad1d(o['kind'], o['q']))
  space = ctx.get(repr([o['mesh'], o['n'], o['kind'], o['q']]), make)
  mesh = space.mesh
  rng = core.rng_of(o)
  u = space.scalar_function(mesh.gather(jnp.asarray(
      rng.normal(size=mesh.num_nodes))))
  a = o['a']
  out = [mesh_leaves(mesh), space.integrate(lambda x: a + x @ x)]
  if o['what'] == 'gradient':
    out.append(space.integrate(lambda x: fs.grad(u)(x) @ fs.grad(u)(x) * a))
  else:
    v = space.scalar_function(None)
    out.append(space.local_covector(
        lambda u, v: lambda x: a * u(x) * v(x) + fs.grad(v)(x) @ x, (u, v)))
  return out


def op_flow(o, ctx):
  """The operators of the flow solver, and a step."""
  import jax.numpy as jnp
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM

  def make():
    m = gen.build(o['mesh'])
    return StokesSEM.create(premesh_of(o, ctx), vsem.boundary_conditions(
        m, o['bc']), order=o['order'])
  s = ctx.get(repr([o['mesh'], o['order'], o['bc']]), make)
  rng = core.rng_of(o)
  draw = lambda: jnp.asarray(rng.normal(size=s.velocity.mesh.node_coords.shape))
  press = lambda: jnp.asarray(rng.normal(
      size=s.pressure.pspace.mesh.num_nodes))
  k = o['k']
  if o['what'] == 'step':
    us = [s.Bi(s.B(draw())) for _ in range(k)]  # equal at identified nodes
    ps = [press() for _ in range(2)]
    keep = list(us), list(ps)
    rhs = draw()
    u, p, _ = s.stokes_one_step(us, ps, rhs, mu=o['mu'], dt=o['dt'], alpha=0.,
                                time_order=k, tol=1e-12, atol=0.)
    core.check(all(a is b for a, b in zip(us + ps, keep[0] + keep[1]))
               and len(us) == k and len(ps) == 2, 'the lists of states are modified')
    return [u, p]
  if o['what'] == 'pressure':
    return [s.D(draw()), s.Dt(press()), s.E(press(), o['dt'], k)]
  u = draw()
  out = [s.velocity_mass_diag, s.A(u), s.B(u), s.Bi(u), s.C(u),
         s.filter(u, alpha=o['mu'])]
  if s.velocity.mesh.ndim == 2:
    out.append(s.vorticity(u))
  return out


TOPOS = strat.shard_subset(['line4', 'quad2x2', 'quad3x2', 'quad2x2'], 1)


@st.composite
def operators_case(draw):
  first = draw(strat.topo_mesh(TOPOS))
  pool = [first]
  for _ in range(draw(st.integers(1, 2))):
    pool.append(dict(draw(st.sampled_from(pool)),
                     geom=draw(strat.geom()), renum=draw(strat.opt_seed())))
  for i, mesh in enumerate(pool):
    if draw(st.booleans()):
      d = len(mesh['base']['n']) if mesh['base']['kind'] == 'grid' else 0
      mesh['periodic'] = sorted(draw(st.sets(st.integers(0, d - 1)))) if d else []
    mesh['groups'] = [
        {'name': g, 'what': 'outer', 'seed': draw(strat.seeds), 'frac': .5}
        for g in ('dir', 'neu')]
  n = draw(st.integers(2, 3))
  order = draw(st.integers(2, 3))
  ops = []
  for _ in range(draw(st.integers(2, 4))):
    op = draw(st.sampled_from(['integrate', 'flow']))
    o = {'op': op, 'mesh': draw(st.sampled_from(pool)),
         'seed': draw(strat.seeds)}
    if op == 'integrate':
      o.update(n=n, q=n, kind=draw(kinds), a=draw(st.sampled_from([1., 2.])),
               what=draw(st.sampled_from(['gradient', 'covector'])))
    else:
      o.update(order=order, bc=draw(st.sampled_from(['dir', 'mixed', 'none'])),
               what=draw(st.sampled_from(['step', 'pressure', 'velocity'])),
               k=draw(st.integers(1, 2)), dt=draw(st.sampled_from([.1, .2])),
               mu=draw(st.sampled_from([.05, .5])))
    ops.append(o)
  return finish(draw, ops)


# ---------------------------------------------------------------------------
# Solvers
# ---------------------------------------------------------------------------


def op_cg(o, ctx):
  import jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  rng = core.rng_of(o)
  n = o['n']
  r = rng.normal(size=(n, n))
  A = jnp.asarray(r @ r.T + n * np.eye(n))
  b = jnp.asarray(ctx.arg(rng.normal(size=n)))
  kw = {'tol': o['tol'], 'maxiter': o['limit']}
  if o['guess']:
    kw['x0'] = jnp.asarray(rng.normal(size=n))
  if o['pre']:
    kw['M'] = lambda x: x / jnp.diag(A)
  x, info = cg(lambda v: A @ v, b, **kw)
  return [x, np.asarray(info['num_iterations'])]


def op_sde(o, ctx):
  import jax
  import jax.numpy as jnp
  from swirl_fem.sde.sdeint import sdeint
  rng = core.rng_of(o)
  a, c = o['a'], o['c']

  def f(y, t, w, th):
    return -a * y * th, (c + y) * w * jnp.cos(t)
  n, k, m = 3, o['outputs'], o['steps']
  y0, th = rng.normal(size=n), rng.normal()
  ts = np.linspace(0, 1, k + 1)
  dw = rng.normal(size=(k * m, n)) * .1
  args = [jnp.asarray(v) for v in (y0, ts, dw, th)]
  g = jax.grad(lambda y, w, t: sdeint(f, y, args[1], w, t).sum(), (0, 1, 2))
  return [sdeint(f, *args), g(args[0], args[2], args[3])]


@st.composite
def solvers_case(draw):
  n = draw(st.integers(2, 4))
  k, m = draw(st.integers(1, 2)), draw(st.integers(1, 2))
  ops = []
  for _ in range(draw(st.integers(2, 4))):
    op = draw(st.sampled_from(['cg', 'sde', 'sde']))
    o = {'op': op, 'seed': draw(strat.seeds)}
    if op == 'cg':
      o.update(n=n, tol=draw(st.sampled_from([1e-10, 1e-2])),
               limit=draw(st.sampled_from([2, 50])),
               guess=draw(st.booleans()), pre=draw(st.booleans()))
    else:
      o.update(outputs=k, steps=m, a=draw(st.sampled_from([.5, 2.])),
               c=draw(st.sampled_from([0., 1.])))
    ops.append(o)
  return finish(draw, ops)


# ---------------------------------------------------------------------------
# Training
# ---------------------------------------------------------------------------


def op_config(o, ctx):
  """The configuration, part of which the caller then overrides."""
  from swirl_fem.niles.config import niles
  config = niles.get_config()
  out = str(config)
  entries = []
  niles.sweep(lambda **kw: entries.append(repr(sorted(kw.items()))))
  metrics = niles.metrics()
  text = [out, str(metrics), str(entries)]
  if o['change']:
    config.batch_size = 7
    config.model.width = 13
    config.model.processor_config.num_samples = 1
    metrics.append('other')
  return text


def op_count(o, ctx):
  import tensorflow_datasets as tfds
  from swirl_fem.niles import input_pipeline as ip
  split = tfds.Split.TRAIN if o['train'] else tfds.Split.VALIDATION
  return [np.array(ip.get_num_examples(
      split, window_size=o['window'], window_stride=o['stride'],
      debug=o['debug']))]


def op_snapshots(o, ctx):
  """A file, which replaces the previous one of its name."""
  import h5py
  from swirl_fem.niles import input_pipeline as ip
  rng = core.rng_of(o)
  path = os.path.join(ctx.folder, 'filtered_dns_shard_00.hdf5')
  with h5py.File(path, 'w') as f:
    f['u'] = rng.normal(size=(o['length'], 2, 2))
    f['t'] = np.arange(o['length']) + rng.integers(100)
  return ip.read_snapshots_file(path)


def op_split(o, ctx):
  """Data files in a folder, which replace the previous ones."""
  import h5py
  import ml_collections
  from absl import flags
  from swirl_fem.niles import input_pipeline as ip
  if not flags.FLAGS.is_parsed():
    flags.FLAGS(['check'])
  rng = core.rng_of(o)
  L = o['length']
  shards = range(24) if o['train'] else range(24, 28)
  for i in list(shards)[:1]:
    with h5py.File(os.path.join(
        ctx.folder, 'filtered_dns_shard_%02d.hdf5' % i), 'w') as f:
      f['u'] = rng.normal(size=(L, 2, 2))
      f['p'] = rng.normal(size=(L, 2))
      f['t'] = np.arange(L) + rng.integers(100)
  w, s = o['window'], o['stride']
  config = ml_collections.FrozenConfigDict({
      'debug': True, 'train_window_size': w, 'train_window_stride': s,
      'eval_window_size': w, 'eval_window_stride': s, 'window_step': 1,
      'cache': o['cache']})
  flags.FLAGS.dataset_dir = ctx.folder
  ds = ip.create_split(2, o['train'], config)
  it = iter(ds.as_numpy_iterator())
  windows = len(range(0, L - w + 1, s)) // 2
  # the order is that of a shuffle with a fixed seed
  return [next(it) for _ in range(windows)]


def op_perm(o, ctx):
  from swirl_fem.niles import train
  p = o['patches']
  return [np.asarray(train.make_multiscale_perm(
      size=2 * int(np.prod(p)), patch_sizes=tuple(p),
      factors=tuple(2 * int(np.prod(p[:i])) for i in range(len(p)))))]


def op_rates(o, ctx):
  import types
  from swirl_fem.niles import train
  config = types.SimpleNamespace(
      warmup_epochs=o['warmup'], num_epochs=6, kl_penalty=o['kl'],
      kl_transition_epochs=2, kl_zero_epochs=1)
  fs = [train.create_learning_rate_fn(config, o['base'], 3),
        train.create_updown_learning_rate_fn(config, o['base'], 3),
        train.create_kl_penalty_fn(config, 3)]
  return [np.array([float(f(i)) for i in range(20)]) for f in fs]


def op_spectrum(o, ctx):
  import jax.numpy as jnp
  import types
  from swirl_fem.niles import train
  n = o['n']
  tke = jnp.asarray(core.rng_of(o).random(size=(n, n)).astype(np.float32))
  return list(train.get_energy_spectrum(
      tke, types.SimpleNamespace(num_nodes=n * n)))


def op_model(o, ctx):
  """The network of a configuration."""
  import jax
  import ml_collections
  from swirl_fem.niles import train
  config = ml_collections.FrozenConfigDict(dict(
      width=o['width'], use_residuals=o['residuals'], depth=o['depth'],
      num_initial_heads=1, pooling_layers=(), pooling_kernel=(1, 1),
      initial_kv_pooling_strides=(1, 1), pooling_strides_q=(1, 1),
      qkv_tile_reps=(1, 1), num_layers=1, num_heads=1, freeze_encoder=False,
      mean_after_decoder=False, processor_config=dict(
          num_samples=0, use_transformer=True, data_size=1, latent_size=4,
          num_gridpoints=3, num_layers=1, num_sde_layers=1, context_size=2,
          hidden_size=3, prior_scale=.1)))
  model = train.create_model('multiscale_transformer', config)
  x = core.rng_of(o).normal(size=(1, 4, 6)).astype(np.float32)
  params = model.init(jax.random.PRNGKey(o['key']), x,
                      jax.random.PRNGKey(1))['params']
  shapes = [np.array(str(jax.tree_util.tree_map(np.shape, params)))]
  y, _ = model.apply({'params': params}, x, jax.random.PRNGKey(2))
  return [str(shapes), y] + leaves(params)


@st.composite
def training_case(draw):
  ops = []
  for _ in range(draw(st.integers(2, 5))):
    op = draw(st.sampled_from(['config', 'count', 'snapshots', 'split', 'perm',
                               'rates', 'spectrum', 'model']))
    o = {'op': op}
    if op == 'config':
      o['change'] = draw(st.sampled_from([True, True, False]))
    elif op == 'count':
      o.update(train=draw(st.booleans()), debug=draw(st.booleans()),
               window=draw(st.integers(1, 3)), stride=draw(st.integers(1, 2)))
    elif op in ('snapshots', 'split'):
      o.update(length=draw(st.integers(4, 6)), seed=draw(strat.seeds))
      if op == 'split':
        o.update(train=draw(st.booleans()), window=draw(st.integers(1, 2)),
                 stride=draw(st.integers(1, 2)), cache=draw(st.booleans()))
    elif op == 'perm':
      o['patches'] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
    elif op == 'rates':
      o.update(warmup=draw(st.integers(1, 2)), kl=draw(
          st.sampled_from([.5, 1.])), base=draw(st.sampled_from([.1, 1.])))
    elif op == 'spectrum':
      o.update(n=draw(st.integers(12, 13)), seed=draw(strat.seeds))
    else:
      o.update(width=4, residuals=draw(st.booleans()), depth=draw(
          st.integers(0, 1)), key=draw(st.integers(0, 1)),
               seed=draw(strat.seeds))
    ops.append(o)
  return finish(draw, ops)


# ---------------------------------------------------------------------------
# Devices
# ---------------------------------------------------------------------------


def op_scan(o, ctx):
  import jax
  import jax.numpy as jnp
  from swirl_fem.communication import pscan
  n = o['n']
  v = core.rng_of(o).integers(0, 2, size=(n, 3)).astype(o['type'])
  f = lambda x: pscan.pscan(x, getattr(jnp, o['with']), 'i', reduction=True)
  if o['pmap']:
    return jax.pmap(f, axis_name='i', devices=jax.devices()[:n])(v)
  return jax.vmap(f, axis_name='i')(v)


def op_program(o, ctx):
  import jax
  from jax import lax
  import jax.numpy as jnp
  from swirl_fem.communication.jit_distributed import jit_distributed
  n, a = o['n'], o['a']

  def program(x, *, power=1):
    return a * x ** power + lax.psum(x.sum(), 'i')

  mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), 'i')
  g = jit_distributed(program, mesh, 'i')
  x = jnp.asarray(core.rng_of(o).normal(size=(n, 3)))
  return [g(x), g(x, power=o['power'])]


def op_route(o, ctx):
  import jax
  from swirl_fem.communication.crystal_router import crystal_router_setup
  n, m = o['n'], 3
  rng = core.rng_of(o)
  mesh = jax.sharding.Mesh(np.array(jax.devices()[:n]), 'i')
  route = ctx.get(f'router {n}', lambda: crystal_router_setup(mesh, 'i'))
  x = ctx.arg(rng.integers(0, 99, size=(n, m)).astype(np.int32))
  to = ctx.arg(rng.integers(0, n, size=(n, m)).astype(np.int32))
  count = ctx.arg(rng.integers(0, m + 1, size=n).astype(np.int32))
  out = route(count, x, to, return_source=False)
  got, data = np.asarray(out[0]), np.asarray(jax.tree_util.tree_leaves(
      out[1])[0])
  # in any order
  return [got] + [np.sort(data[j, :got[j]]) for j in range(n)]


@st.composite
def devices_case(draw):
  ops = []
  ns = [draw(st.integers(2, 4))]
  for _ in range(draw(st.integers(2, 4))):
    op = draw(st.sampled_from(['scan', 'program', 'route']))
    o = {'op': op, 'n': draw(st.sampled_from(ns)), 'seed': draw(strat.seeds)}
    if op == 'scan':
      o.update({'with': draw(st.sampled_from(
          ['add', 'multiply', 'maximum', 'minimum', 'bitwise_and',
           'bitwise_or'])), 'type': draw(st.sampled_from(
               ['int32', 'int8', 'int64', 'uint8'])),
                'pmap': draw(st.booleans())})
    elif op == 'program':
      o.update(a=draw(st.sampled_from([1., 2.])), power=draw(st.integers(0, 2)))
    ops.append(o)
  return finish(draw, ops)


OPS = {'nodes': op_nodes, 'interpolate': op_interpolate,
       'coefficients': op_coefficients, 'facets': op_facets,
       'refine': op_refine, 'cube': op_cube, 'partition': op_partition,
       'indices': op_indices, 'file': op_file, 'integrate': op_integrate,
       'flow': op_flow, 'cg': op_cg, 'sde': op_sde, 'config': op_config,
       'count': op_count, 'snapshots': op_snapshots, 'split': op_split,
       'perm': op_perm, 'rates': op_rates, 'spectrum': op_spectrum,
       'model': op_model, 'scan': op_scan, 'program': op_program,
       'route': op_route}


def labels(case):
  return ['op=' + o['op'] for o in case['ops']]


def nontrivial(case):
  names = [o['op'] for o in case['ops']]
  return any(o['op'] == q['op'] and o != q
             for o in case['ops'] for q in case['ops'])


SUBS = {
    'tables': core.Sub(tables_case(), run, labels, nontrivial,
                       'nodes, weights, interpolation, coefficients'),
    'meshes': core.Sub(meshes_case(), run, labels, nontrivial,
                       'refinement, partitions, files'),
    'operators': core.Sub(operators_case(), run, labels, nontrivial,
                          'spaces, flow solver'),
    'solvers': core.Sub(solvers_case(), run, labels, nontrivial,
                        'conjugate gradients, SDEs'),
    'training': core.Sub(training_case(), run, labels, nontrivial,
                         'configuration, data, network, schedules'),
    'devices': core.Sub(devices_case(), run, labels, nontrivial,
                        'scans, programs, routing'),
}
