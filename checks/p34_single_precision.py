"""P34: single precision gives the double-precision results up to rounding."""

import contextlib

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, strat

RULE = ('A case is non-trivial if the mesh has several elements, or the '
        'equation several steps.')
PLAN = [
    {'subs': {'operators': (14, 120)}, 'shards': (3, 8), 'env': {'x64': False},
     'tag': 'operators'},
    {'subs': {'solve': (8, 80)}, 'shards': (2, 6), 'env': {'x64': False},
     'tag': 'solve'},
    {'subs': {'flow': (4, 40)}, 'shards': (3, 8), 'env': {'x64': False},
     'tag': 'flow'},
]
ASSUMPTIONS = [
    'The double-precision results are those of the other properties. They are '
    'evaluated again with data which is perturbed by the rounding error of '
    'single precision, which gives the tolerance.',
    'Elements are not much smaller than their coordinates.']

EPS = float(np.finfo(np.float32).eps)

MESHES = strat.shard_subset([
    ['quad4x4', [], 'gll', 5], ['quad3x2', [0], 'nc', 4],
    ['tri24', [], 'gll', 4], ['hex8', [], 'gll', 3], ['hex4', [0, 1], 'nc', 3],
    ['tet8', [], 'gll', 3], ['line7', [], 'gll', 6], ['quadO', [], 'nc', 5],
    ['quad4x4', [0, 1], 'gll', 3], ['quad1', [], 'gll', 9]], 2)
SOLVES = strat.shard_subset([
    ['quad4x4', [], 'gll', 5], ['tri24', [], 'gll', 4], ['hex8', [], 'nc', 3],
    ['quadO', [], 'nc', 4], ['line7', [], 'gll', 7], ['hexL', [], 'gll', 3]], 2)
FLOWS = strat.shard_subset([
    ['quad4x4', [], 4], ['quad4x4', [0, 1], 4], ['tri24', [], 3],
    ['hex4', [0], 3], ['quad3x3', [1], 5], ['quadO', [], 4]], 1)


@contextlib.contextmanager
def precision(double):
  from jax.experimental import enable_x64
  with enable_x64(double):
    yield


@st.composite
def case(draw, shapes, wide=False):
  shape = draw(st.sampled_from(shapes))
  mesh = draw(strat.topo_mesh([shape[0]]))
  if shape[1]:
    mesh['periodic'] = list(shape[1])
  mesh['groups'] = [
      {'name': 'neu', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': draw(st.sampled_from([1., .6]))},
      {'name': 'dir', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': draw(st.sampled_from([1., .6, .3]))}]
  out = {'mesh': mesh, 'seed': draw(strat.seeds),
         # products of the iterations have to stay in the range of the numbers
         'length': draw(st.sampled_from(
             [1., 1e-3, 1e3] if wide else [1., 1., .05, 20.])),
         'value': draw(st.sampled_from(
             [1., 1e-3, 1e3] if wide else [1., 1., 1e-2, 1e2]))}
  if len(shape) == 4:
    out['kind'], out['n'] = shape[2:]
  else:
    out['order'] = shape[2]
  return out


class Data:
  """Draws the same numbers for each evaluation, some of them perturbed."""

  def __init__(self, seed, noise):
    self.rng = np.random.default_rng(seed)
    self.other = np.random.default_rng(noise) if noise else None

  def perturbed(self, x):
    x = np.asarray(x, np.float64)
    if self.other is None or not x.size:
      return x
    return x + EPS * np.abs(x).max() * self.other.uniform(-1, 1, size=x.shape)

  def normal(self, size, scale=1.):
    return self.perturbed(scale * self.rng.normal(size=size))


def premesh(c, data):
  m = gen.build(c['mesh'])
  m.coords = data.perturbed(c['length'] * m.coords)
  return m, gen.to_premesh(m)


def compare(c, evaluate, exact=()):
  """`evaluate(data, double)` gives arrays by name."""
  with precision(True):
    want = evaluate(Data(c['seed'], None), True)
    want = {k: np.asarray(v) for k, v in want.items()}
    others = [evaluate(Data(c['seed'], 1 + k), True) for k in range(3)]
    others = [{k: np.asarray(v) for k, v in o.items()} for o in others]
  with precision(False):
    got = evaluate(Data(c['seed'], None), False)
  for k, e in want.items():
    a = np.asarray(got[k])
    if e.dtype.kind != 'f':
      core.same(a, e, k)
      continue
    # what is kept on the host may have more digits
    core.check(a.dtype == np.float32 or (
        isinstance(got[k], np.ndarray) and a.dtype == np.float64),
               f'{k}: type', got=a.dtype)
    if not np.isfinite(e).all():
      continue
    noise = max(np.abs(o[k] - e).max() if e.size else 0. for o in others)
    if not np.isfinite(noise):
      continue
    core.close(a, e, f'{k} in single precision',
               rtol=100 * EPS, atol=50 * noise)


def run_operators(case):
  """Meshes, exchange, integrals, covectors and gradients."""
  c = case

  def evaluate(data, double):
    import jax
    import jax.numpy as jnp
    from swirl_fem.core.fespace import FiniteElementSpace, div, grad
    from swirl_fem.core.mesh_refiner import refine_premesh
    m, p = premesh(c, data)
    s = refine_premesh(p, gen.nodes1d(c['kind'], c['n'])).finalize()
    V = FiniteElementSpace.create(mesh=s, quadrature=gen.quad1d(
        'gl', c['n'] + 1))
    d, N = m.ndim, s.num_nodes
    J = lambda x: jnp.asarray(x, dtype=np.float64 if double else np.float32)
    u, v = (J(data.normal(N, c['value'])) for _ in range(2))
    w = J(data.normal((N, d), c['value']))
    f = V.scalar_function(s.gather(u))
    g = V.scalar_function(s.gather(v))
    h = V.vector_function(jax.vmap(s.gather, in_axes=-1, out_axes=-1)(w))
    t = V.scalar_function(None)
    out = {
        'nodes': s.node_coords, 'elements': s.elements,
        'coordinates of the elements': s.element_coords(),
        'local values': s.gather(u), 'assembled': s.scatter(s.gather(u)),
        'exchange': s.exchange(u),
        'volume': V.integrate(lambda x: jnp.ones(())),
        'product': V.integrate(lambda x: f(x) * g(x)),
        'moment': V.integrate(lambda x: f(x) * x[0]),
        'energy': V.integrate(lambda x: jnp.vdot(grad(f)(x), grad(g)(x))),
        'flux': V.integrate(lambda x: div(h)(x) * g(x)),
        'convection': V.integrate(
            lambda x: jnp.dot(h(x) @ grad(h)(x), h(x))),
        'mass': s.scatter(V.local_covector(
            lambda a, b: lambda x: a(x) * b(x), (f, t))),
        'stiffness': s.scatter(V.local_covector(
            lambda a, b: lambda x: jnp.vdot(grad(a)(x), grad(b)(x)), (f, t))),
        'transport': s.scatter(V.local_covector(
            lambda a, b: lambda x: jnp.dot(h(x), grad(a)(x)) * b(x), (f, t))),
    }
    for k in m.groups:
      out[f'nodes of the group {k}'] = s.physical_masks[k]
    return out

  compare(c, evaluate)


def run_solve(case):
  """Poisson problems, and the conjugate gradients of linalg."""
  c = case

  def evaluate(data, double):
    import jax.numpy as jnp
    from swirl_fem.core.mesh_refiner import refine_premesh
    from swirl_fem.examples.poisson import BCType, solve_poisson
    from swirl_fem.linalg.cg import cg
    m, p = premesh(c, data)
    s = refine_premesh(p, gen.nodes1d(c['kind'], c['n'])).finalize()
    dtype = np.float64 if double else np.float32
    f = jnp.asarray(data.normal(s.num_nodes, c['value']), dtype=dtype)
    bc = {g: (BCType.DIRICHLET if g == 'dir' else BCType.NEUMANN, 0)
          for g in m.groups}
    # the perturbed solutions are accurate: the tolerance counts as well
    u = solve_poisson(s, f, bc, rtol=1e-10 if data.other else 1e-5)
    k = 12
    B = data.rng.normal(size=(k, k))
    A = jnp.asarray(c['value'] * data.perturbed(B @ B.T + k * np.eye(k)),
                    dtype=dtype)
    D = jnp.asarray(1 / data.rng.uniform(1, 9, size=k), dtype=dtype)
    b = jnp.asarray(data.normal(k), dtype=dtype)
    x, info = cg(lambda x: A @ x, b, tol=1e-11 if data.other else 1e-5,
                 M=lambda r: D * r)
    core.check(data.other or int(info['num_iterations']) <= 10 * k // 2,
               'the iteration stops', iterations=int(info['num_iterations']))
    return {'solution': u, 'linear system': x}

  compare(c, evaluate)


def run_flow(case):
  """Operators and a step of the flow solver."""
  c = case

  def evaluate(data, double):
    import jax.numpy as jnp
    from swirl_fem.navier_stokes.navier_stokes import BCType, StokesSEM
    m, p = premesh(c, data)
    bc = {g: (BCType.DIRICHLET if g != 'neu' else BCType.NEUMANN, 0.)
          for g in m.groups}
    s = StokesSEM.create(p, bc, order=c['order'])
    d, L = m.ndim, c['length']
    N, P = len(s.velocity.mesh.node_coords), len(
        s.pressure.pspace.mesh.node_coords)
    dtype = np.float64 if double else np.float32
    J = lambda x: jnp.asarray(x, dtype=dtype)
    u, v = (J(data.normal((N, d), c['value'])) for _ in range(2))
    q, r = (J(data.normal(P, c['value'])) for _ in range(2))
    out = {'B': s.B(u), 'Bi': s.Bi(u), 'A': s.A(u), 'C': s.C(u), 'D': s.D(u),
           'Dt': s.Dt(q), 'E': s.E(q, .1, 2), 'pressure mass': s.pressure.B(q),
           'filter': s.filter(u, alpha=.3),
           'mask': s.velocity.interior_mask}
    if d == 2:
      out['vorticity'] = s.vorticity(u)
    mask = np.asarray(s.velocity.interior_mask)
    if not (mask > 0).any():
      return out
    if 'neu' in m.groups:
      return out    # open flows
    # consistent with the size of the domain: u ~ L, p ~ L^2
    us = [mask * .1 * L / c['value'] * t for t in (u, v)]
    us = [s.Bi(s.B(t)) for t in us]
    ps = [.1 * L ** 2 / c['value'] * t for t in (q, r)]
    un, pn, _ = s.stokes_one_step(
        us, ps, s.B(us[0]), .3 * L ** 2, .05, 2, alpha=.05,
        tol=1e-9 if data.other else 1e-5, atol=0.)
    return {**out, 'velocity': un, 'pressure': pn}

  compare(c, evaluate)


def labels(c):
  return strat.mesh_labels(c['mesh']) + [f"length={c['length']}"]


def nontrivial(c):
  return strat.mesh_nontrivial(c['mesh'])


SUBS = {
    'operators': core.Sub(case(MESHES, True), run_operators, labels, nontrivial,
                          'meshes and finite element spaces'),
    'solve': core.Sub(case(SOLVES), run_solve, labels, nontrivial,
                      'Poisson problems and linear systems'),
    'flow': core.Sub(case(FLOWS), run_flow, labels, nontrivial,
                     'flow operators and steps'),
}
