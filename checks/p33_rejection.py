"""P33: what is not supported is rejected, instead of giving a result."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, gmsh, strat

RULE = ('A case is non-trivial if the mesh has more than one element, or the '
        'rejected value differs from a valid one in a single entry.')
PLAN = [
    {'subs': {'mesh': (30, 250), 'refine': (60, 500), 'links': (60, 500)},
     'shards': (3, 4), 'env': {'x64': True}, 'tag': 'mesh'},
    {'subs': {'nodes': (100, 1000), 'space': (10, 80), 'box': (60, 500),
              'reader': (40, 300), 'training': (40, 300)},
     'shards': (2, 3), 'env': {'x64': True}},
    {'subs': {'solvers': (7, 50)}, 'shards': (2, 3), 'env': {'x64': True},
     'tag': 'solvers'},
    {'subs': {'devices': (30, 200)}, 'shards': (1, 1),
     'env': {'x64': True, 'devices': 2}, 'tag': 'devices'},
]
ASSUMPTIONS = [
    'Any exception is a rejection. The valid neighbour of each rejected input '
    'is accepted.']


def rejected(f, what, **info):
  try:
    out = f()
  except Exception:  # pylint: disable=broad-except
    return
  core.check(False, f'accepted: {what}', result=type(out).__name__, **info)


@st.composite
def case(draw, **kw):
  return {'mesh': draw(strat.free_mesh(**kw)), 'n': draw(st.integers(2, 5)),
          'kind': draw(st.sampled_from(['gll', 'nc'])),
          'pick': draw(st.integers(0, 1000)), 'seed': draw(strat.seeds)}


def choose(c, options):
  return options[c['pick'] % len(options)]


# ---------------------------------------------------------------------------
# Meshes
# ---------------------------------------------------------------------------


def run_mesh(case):
  """Counts of nodes per element, and shapes of nodal values."""
  import jax.numpy as jnp
  from swirl_fem.core.mesh import Mesh
  from swirl_fem.core.premesh import Premesh
  c = case
  m = gen.build(dict(c['mesh'], parts=None))
  d = m.ndim
  n = c['n']
  el = np.array(m.elements, np.int32)
  coords = np.array(m.coords)
  nodes = gen.nodes1d(c['kind'], 2)
  for make in (Premesh.create, Mesh.create):
    make(node_coords=coords, elements=el, gridpoints_1d=nodes)
    if n != 2:
      rejected(lambda: make(node_coords=coords, elements=el,
                            gridpoints_1d=gen.nodes1d(c['kind'], n)),
               'elements with 2^d nodes, and another number of grid points')
    if d > 1:
      rejected(lambda: make(node_coords=coords, elements=el[:, :-1]),
               'elements without one of their nodes', ndim=d)
      rejected(lambda: make(
          node_coords=coords, elements=np.concatenate([el, el[:, :1]], 1)),
               'elements with a node too many', ndim=d)
    rejected(lambda: make(node_coords=coords, gridpoints_1d=nodes,
                          elements=np.concatenate([el, el[:, :1]], 1)),
             'elements with a node too many, and grid points', ndim=d)

  mesh = gen.to_premesh(m).finalize()
  N = mesh.num_nodes
  u = jnp.ones(N)
  core.check(mesh.gather(u).shape == el.shape, 'shape of the local values')
  shape = choose(c, [(N + 1,), (N - 1,), (N, 1), (N, d), (1, N), (), (0,),
                     (2 * N,)])
  rejected(lambda: mesh.gather(jnp.ones(shape)), 'nodal values of the shape',
           shape=shape, nodes=N)
  E, q = el.shape
  mesh.scatter(jnp.ones((E, q)))
  shape = choose(c, [(E + 1, q), (E, q + 1), (E, 1), (1, q), (q,), (E,), (),
                     (E * q,), (E, q, 1), (E, q, d), (1, E, q)])
  if shape != (E, q):
    rejected(lambda: mesh.scatter(jnp.ones(shape)), 'local values of the shape',
             shape=shape, elements=(E, q))


def run_refine(case):
  """Orders, empty groups, and facets of other meshes."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  c = case
  m = gen.build(c['mesh'])
  d = m.ndim
  p = gen.to_premesh(m)
  fine = refine_premesh(p, gen.nodes1d(c['kind'], c['n']))
  if c['n'] > 2:
    rejected(lambda: refine_premesh(fine, gen.nodes1d(c['kind'], c['n'])),
             'a mesh of high order to be refined', order=c['n'] - 1)
    rejected(lambda: refine_premesh(fine, gen.nodes1d('gl', 2)),
             'a mesh of high order to be refined', order=c['n'] - 1)
    rejected(lambda: StokesSEM.create(fine, {}, order=3),
             'a mesh of high order for the flow solver', order=c['n'] - 1)
  groups = {k: np.array(v, np.int32) for k, v in m.groups.items()}
  empty = dict(groups)
  names = sorted(groups) + ['none']
  name = names[c['pick'] % len(names)]
  empty[name] = np.zeros((0, 2 ** (d - 1)), np.int32)
  q = gen.to_premesh(m, physical_groups=empty)
  rejected(lambda: refine_premesh(q, gen.nodes1d(c['kind'], c['n'])),
           'a group without facets to be refined', groups=names, empty=name)
  if d > 1 and c['n'] > 2:
    rng = core.rng_of(case)
    have = {tuple(sorted(f)) for f in gen.split_facets(m.elements, d)[0].tolist()}
    have |= {tuple(sorted(f)) for f in gen.split_facets(m.elements, d)[1].tolist()}
    N = len(m.coords)
    for _ in range(5):
      if N < 2 ** (d - 1):
        break
      f = rng.choice(N, size=2 ** (d - 1), replace=False)
      if tuple(sorted(f.tolist())) in have:
        continue
      bad = dict(groups)
      bad['none'] = np.concatenate([
          np.array(m.boundary, np.int32), f[None].astype(np.int32)])
      q = gen.to_premesh(m, physical_groups=bad)
      rejected(lambda: refine_premesh(q, gen.nodes1d(c['kind'], c['n'])),
               'a group with something else than facets of the mesh',
               facet=f.tolist())
      break


@st.composite
def links_case(draw):
  return {'d': draw(st.integers(1, 2)), 'n': draw(st.integers(2, 4)),
          'axis': draw(st.integers(0, 1)), 'k': draw(st.integers(1, 4)),
          'axes': draw(st.integers(0, 5)),
          'name': draw(st.sampled_from([None, '', 'i'])),
          'seed': draw(strat.seeds)}


def run_links(case):
  """Partitioned meshes: names of the axis and ranks of the numberings."""
  from swirl_fem.common import premesh_commons
  from swirl_fem.core import gather_scatter as gs
  c = case
  rng = core.rng_of(case)
  d = c['d']
  p = premesh_commons.unit_cube_mesh(c['n'], ndim=d)
  p.finalize()
  E = c['n'] ** d
  parts = np.zeros(E, np.int32)
  one = p.replace(partitions=parts)
  one.finalize(axis_name='i')
  for name in (None, ''):
    rejected(lambda: one.finalize(axis_name=name),
             'partitions without the name of an axis', name=name)
  rejected(one.finalize, 'partitions without the name of an axis')

  # numberings: one row per partition, each without repetitions
  N = c['n'] + 3
  rows = np.stack([rng.choice(2 * N, size=N, replace=False)
                   for _ in range(c['k'])])
  gs.get_exchange_indices(rows[0])
  gs.get_exchange_indices(rows)
  rejected(lambda: gs.get_exchange_indices(rows[None]), 'a numbering of rank 3')
  rejected(lambda: gs.get_exchange_indices(np.array(3)), 'a numbering of rank 0')
  bad = rows.copy()
  i = int(rng.integers(c['k']))
  a, b = rng.choice(N, size=2, replace=False)
  bad[i, a] = bad[i, b]
  if c['k'] > 1 and c['axes'] % 2:
    # the repeated node belongs to another partition as well
    j = (i + 1) % c['k']
    if bad[i, b] not in bad[j]:
      bad[j, 0] = bad[i, b]
  rejected(lambda: gs.get_exchange_indices(bad),
           'a node which occurs twice in a partition', numbering=bad.tolist())

  # identified nodes within a partition
  axis = c['axis'] % d
  parts = rng.integers(0, c['k'], size=E).astype(np.int32)
  per = premesh_commons.unit_cube_mesh(c['n'], ndim=d, periodic_dims=(axis,))
  per.finalize()
  el = np.asarray(per.elements)
  member = [set(el[parts == k].reshape(-1).tolist()) for k in range(c['k'])]
  links = np.asarray(per.periodic_links)
  pairs = zip(links[:, 0].reshape(-1).tolist(), links[:, 1].reshape(-1).tolist())
  if any(a in s and b in s for a, b in pairs for s in member):
    split = per.replace(partitions=parts)
    rejected(lambda: split.finalize(axis_name='i'),
             'identified nodes within a partition', parts=parts.tolist())

  u = np.ones(N)
  import jax.numpy as jnp
  idx = jnp.asarray(rng.integers(0, N, size=(3, 2)))
  gs.gather(jnp.asarray(u), idx)
  for shape in ((N, 1), (1, N), (), (N, 2)):
    rejected(lambda: gs.gather(jnp.ones(shape), idx), 'values of rank not one',
             shape=shape)
  gs.scatter(jnp.ones((3, 2)), idx, num_nodes=N)
  for shape in ((3,), (6,), (2, 3), (3, 1), (3, 2, 1), (1, 3, 2), ()):
    rejected(lambda: gs.scatter(jnp.ones(shape), idx, num_nodes=N),
             'values of another shape than the indices', shape=shape)


# ---------------------------------------------------------------------------
# Nodes and spaces
# ---------------------------------------------------------------------------


@st.composite
def nodes_case(draw):
  return {'d': draw(st.integers(1, 3)), 'n': draw(st.integers(2, 6)),
          'm': draw(st.integers(1, 4)),
          'kind': draw(st.sampled_from(['gll', 'nc', 'gl'])),
          'to': draw(st.sampled_from(['gll', 'nc', 'gl', 'one'])),
          'off': draw(st.sampled_from([-1, 1, 2, 5])),
          'x': draw(st.floats(-1, 1))}


def run_nodes(case):
  import jax.numpy as jnp
  from swirl_fem.core.interpolation import (
      BarycentricInterpolator, Nodes1D, NodeType, Quadrature1D)
  c = case
  n, d = c['n'], c['d']
  one = Nodes1D.create_single_point(node_value=np.array(c['x']))
  for bad in (NodeType.SINGLE, None, 'gll', 7):
    rejected(lambda: Nodes1D.create(num_points=n, node_type=bad),
             'nodes of the type', type=bad)
    rejected(lambda: Quadrature1D.create(num_points=n, quadrature_type=bad),
             'quadrature of the type', type=bad)
  to = one if c['to'] == 'one' else gen.nodes1d(c['to'], max(2, c['m']))
  ip = BarycentricInterpolator(ndim=d, gridpoints_1d=gen.nodes1d(c['kind'], n),
                               evalpoints_1d=to)
  size = n ** d
  q = to.num_points ** d
  core.check(ip.interpolate(jnp.ones(size)).shape == (q,), 'valid values')
  core.check(ip.interpolate_grad(jnp.ones(size)).shape == (q, d),
             'valid values')
  shapes = [(max(0, size + c['off']),), (size, 1), (1, size), (), (1,)]
  for shape in shapes:
    if shape == (size,):
      continue
    rejected(lambda: ip.interpolate(jnp.ones(shape)),
             'values to be interpolated of the shape', shape=shape, points=size)
    rejected(lambda: ip.interpolate_grad(jnp.ones(shape)),
             'values to be differentiated of the shape', shape=shape,
             points=size)


@st.composite
def space_case(draw):
  return {'topo': draw(st.sampled_from(strat.shard_subset(
      ['line4', 'quad2x1', 'tri2', 'hex1'], 2))),
          'n': draw(st.integers(2, 3)), 'q': draw(st.integers(2, 3)),
          'pick': draw(st.integers(0, 1000)), 'seed': draw(strat.seeds)}


def run_space(case):
  """Shapes of nodal values, integrands and arguments of forms."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import FiniteElementSpace
  from swirl_fem.core.mesh_refiner import refine_premesh
  c = case
  m = gen.build({'base': strat.TOPO[c['topo']]})
  d = m.ndim
  mesh = refine_premesh(gen.to_premesh(m), gen.nodes1d('gll', c['n'])).finalize()
  V = FiniteElementSpace.create(mesh, gen.quad1d('gl', c['q']))
  E, k = mesh.num_elements, mesh.num_nodes_per_element
  V.scalar_function(jnp.ones((E, k)))
  V.vector_function(jnp.ones((E, k, d)))
  V.scalar_function(None)
  V.vector_function(None)
  good = {(E, k), (E, k, d)}
  shapes = [(E, k, d), (E, k), (E, k, 1), (E, k, d + 1), (E + 1, k),
            (E, k + 1), (1, k), (E, 1), (E * k,), (k,), (), (mesh.num_nodes,),
            (E, d, k), (d, E, k), (mesh.num_nodes, d), (k, E), (E, k, 1, 1)]
  for s in shapes:
    if s != (E, k):
      rejected(lambda: V.scalar_function(jnp.ones(s)), 'scalar values of the '
               'shape', shape=s, expected=(E, k))
    if s != (E, k, d):
      rejected(lambda: V.vector_function(jnp.ones(s)), 'vector values of the '
               'shape', shape=s, expected=(E, k, d))
  del good

  u = V.scalar_function(jnp.ones((E, k)))
  w = V.vector_function(jnp.ones((E, k, d)))
  core.check(np.shape(V.integrate(u)) == (), 'a scalar integrand')
  for f, what in ((w, 'a vector'), (lambda x: x, 'the coordinates'),
                  (lambda x: u(x)[None], 'an array of one entry'),
                  (lambda x: jnp.eye(d), 'a matrix')):
    rejected(lambda: V.integrate(f), f'the integral of {what}')
  v = V.scalar_function(None)
  z = V.vector_function(None)
  form2 = lambda a, b: lambda x: jnp.sum(a(x)) * jnp.sum(b(x))
  V.local_covector(form2, (u, v))
  V.local_covector(form2, (z, u))
  for funs in ((u, u), (v, v), (z, v), (z, z), (u, w), (lambda x: x[0], u)):
    rejected(lambda: V.local_covector(form2, funs),
             'a form without a single free argument')
  rejected(lambda: V.local_covector(
      lambda a, b: lambda x: a(x) * b(x), (z, u)), 'a form whose value is a vector')


# ---------------------------------------------------------------------------
# Builders and readers
# ---------------------------------------------------------------------------


@st.composite
def box_case(draw):
  d = draw(st.integers(1, 3))
  n = draw(st.integers(1, 6))
  shape = draw(st.lists(st.integers(1, 4), min_size=d, max_size=d))
  return {'d': d, 'n': n, 'shape': shape}


def run_box(case):
  from swirl_fem.common.premesh_commons import unit_cube_mesh
  c = case
  ids = np.arange(int(np.prod(c['shape']))).reshape(c['shape'])
  build = lambda: unit_cube_mesh(c['n'], ndim=c['d'], partitions=ids)
  if all(c['n'] % s == 0 for s in c['shape']):
    core.check(len(build().partitions) == c['n'] ** c['d'], 'valid partitions')
  else:
    rejected(build, 'partitions which do not divide the elements of each axis',
             n=c['n'], shape=c['shape'])
  if c['d'] > 1:
    rejected(lambda: unit_cube_mesh(c['n'], ndim=c['d'], partitions=ids[0]),
             'partitions of another dimension')


@st.composite
def reader_case(draw):
  d = draw(st.integers(1, 3))
  return {'mesh': draw(strat.free_mesh(dims=(d,), periodic=False,
                                       with_groups=False)),
          'fmt': draw(st.sampled_from(['2.2', '4.1'])),
          'bad': draw(st.sampled_from([0, 4, -1, 5, 2.5, '2', None]))}


def run_reader(case):
  from swirl_fem.common import mesh_reader
  c = case
  m = gen.build(c['mesh'])
  d = m.ndim
  folder = tempfile.mkdtemp()
  try:
    path = os.path.join(folder, 'mesh.msh')
    import meshio
    pts = np.zeros((len(m.coords), 3))
    pts[:, :d] = m.coords
    cells = gmsh.to_gmsh(m.elements, d)
    kind = {1: 'line', 2: 'quad', 3: 'hexahedron'}[d]
    meshio.write(path, meshio.Mesh(pts, [(kind, np.asarray(cells))]),
                 file_format='gmsh22' if c['fmt'] == '2.2' else 'gmsh',
                 binary=False)
    core.check(mesh_reader.read(path, ndim=d).num_elements == len(m.elements),
               'elements of a valid file')
    for other in {1, 2, 3} - {d}:
      rejected(lambda: mesh_reader.read(path, ndim=other),
               'a file without elements of the dimension', ndim=other, cells=d)
    rejected(lambda: mesh_reader.read(path, ndim=c['bad']),
             'the dimension', ndim=c['bad'])
    rejected(lambda: mesh_reader.read(os.path.join(folder, 'none.msh'), ndim=d),
             'a file which does not exist')
  finally:
    shutil.rmtree(folder)


# ---------------------------------------------------------------------------
# Solvers and training
# ---------------------------------------------------------------------------


@st.composite
def solvers_case(draw):
  return {'topo': draw(st.sampled_from(['quad2x1', 'tri2'])),
          'n': 3, 'value': draw(st.sampled_from(
              ['one', 'tiny', 'zeros', 'ones', 'function', 'nan', 'none'])),
          'kind': draw(st.sampled_from(['DIRICHLET', 'NEUMANN'])),
          'first': draw(st.booleans()), 'seed': draw(strat.seeds)}


def run_solvers(case):
  """Boundary values and names of groups of both solvers."""
  import jax.numpy as jnp
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.examples import poisson
  from swirl_fem.navier_stokes import navier_stokes as ns
  c = case
  m = gen.build({'base': strat.TOPO[c['topo']],
                 'groups': [{'name': 'a', 'what': 'boundary', 'seed': 1,
                             'frac': 1.}]})
  m.groups = {'a': m.boundary[:1], 'b': m.boundary[1:]}
  p = gen.to_premesh(m)
  mesh = refine_premesh(p, gen.nodes1d('gll', c['n'])).finalize()
  f = jnp.ones(mesh.num_nodes)
  bc = poisson.BCType
  good = {'a': (bc.DIRICHLET, 0.), 'b': (bc.NEUMANN, 0)}
  u = poisson.solve_poisson(mesh, f, good)
  core.check(np.all(np.isfinite(np.asarray(u))), 'a valid problem')
  N = mesh.num_nodes
  bad = {'one': 1., 'tiny': -1e-8, 'zeros': np.zeros(N), 'ones': jnp.ones(N),
         'function': lambda x: 0., 'nan': float('nan'), 'none': None}[c['value']]
  entries = [('a', (bc.DIRICHLET, 0.)), ('b', (getattr(bc, c['kind']), bad))]
  if c['first']:
    entries = entries[::-1]
  rejected(lambda: poisson.solve_poisson(mesh, f, dict(entries)),
           'a boundary value which is not zero', value=c['value'],
           kind=c['kind'])
  entries = [('a', (bc.DIRICHLET, 0.)), ('c', (bc.DIRICHLET, 0.))]
  if c['first']:
    entries = entries[::-1]
  rejected(lambda: poisson.solve_poisson(mesh, f, dict(entries)),
           'a condition on a group which does not exist')
  rejected(lambda: poisson.solve_poisson(mesh, f[:-1], good),
           'a source of the wrong length')
  sc = ns.BCType
  ns.StokesSEM.create(p, {'a': (sc.DIRICHLET, 0.)}, order=2)
  entries = [('a', (sc.DIRICHLET, 0.)), ('c', (sc.DIRICHLET, 0.))]
  if c['first']:
    entries = entries[::-1]
  rejected(lambda: ns.StokesSEM.create(p, dict(entries), order=2),
           'a condition on a group which does not exist')


@st.composite
def training_case(draw):
  return {'name': draw(st.sampled_from(
      ['', 'transformer', 'Multiscale_transformer', 'multiscale', None])),
          'mode': draw(st.sampled_from(['', 'mean', 'AVG', 'sum', None])),
          'heads': draw(st.integers(1, 4)), 'dim': draw(st.integers(1, 4)),
          'length': draw(st.integers(2, 6))}


def run_training(case):
  import jax.numpy as jnp
  from swirl_fem.niles import train, transformer
  from swirl_fem.niles.config import niles
  c = case
  cfg = niles.get_config()
  train.create_model(model_name=cfg.model_name, model_config=cfg.model)
  rejected(lambda: train.create_model(model_name=c['name'],
                                      model_config=cfg.model),
           'a model of the name', name=c['name'])
  x = jnp.ones((1, c['length'], c['heads'] * c['dim']))
  kw = dict(pooling_window=(2,), strides=(1,), num_heads=c['heads'])
  for mode in ('avg', 'max', 'none'):
    transformer.attention_pooling(x, pool_mode=mode, **kw)
  rejected(lambda: transformer.attention_pooling(x, pool_mode=c['mode'], **kw),
           'pooling of the kind', mode=c['mode'])
  if c['heads'] > 1:
    rejected(lambda: transformer.attention_pooling(
        x[..., 1:], pool_mode='max', **kw),
             'features which the heads do not divide', heads=c['heads'],
             features=c['heads'] * c['dim'] - 1)


@st.composite
def devices_case(draw):
  return {'batch': 2 * draw(st.integers(0, 8)) + 1}


def run_devices(case):
  """Batches which the devices do not divide."""
  from swirl_fem.niles import input_pipeline, train
  from swirl_fem.niles.config import niles
  cfg = niles.get_config()
  cfg.batch_size = case['batch']
  folder = tempfile.mkdtemp()
  try:
    reached = []
    create = train.create_input_iter

    class Reached(Exception):
      pass

    def stand_in(*a, **k):
      reached.append(True)
      raise Reached()

    train.create_input_iter = stand_in
    try:
      try:
        train.train_and_evaluate(cfg, folder)
      except Exception:  # pylint: disable=broad-except
        pass
      core.check(not reached, 'accepted: a batch which the devices do not divide',
                 batch=cfg.batch_size)
      cfg.batch_size = case['batch'] + 1
      try:
        train.train_and_evaluate(cfg, folder)
      except Reached:
        pass
      core.check(reached, 'a batch which the devices divide is accepted',
                 batch=cfg.batch_size)
    finally:
      train.create_input_iter = create
  finally:
    shutil.rmtree(folder)
  del input_pipeline


def labels(c):
  return strat.mesh_labels(c['mesh']) if 'mesh' in c else [
      f'{k}={v}' for k, v in c.items() if k in ('d', 'kind', 'value', 'mode',
                                                'topo')]


def nontrivial(c):
  return strat.mesh_nontrivial(c['mesh']) if 'mesh' in c else True


SUBS = {
    'mesh': core.Sub(case(), run_mesh, labels, nontrivial),
    'refine': core.Sub(case(), run_refine, labels, nontrivial),
    'links': core.Sub(links_case(), run_links, labels, nontrivial),
    'nodes': core.Sub(nodes_case(), run_nodes, labels, nontrivial),
    'space': core.Sub(space_case(), run_space, labels, nontrivial),
    'box': core.Sub(box_case(), run_box, labels, nontrivial),
    'reader': core.Sub(reader_case(), run_reader, labels, nontrivial),
    'solvers': core.Sub(solvers_case(), run_solvers, labels, nontrivial),
    'training': core.Sub(training_case(), run_training, labels, nontrivial),
    'devices': core.Sub(devices_case(), run_devices, labels, nontrivial),
}
