"""High-order meshes built without the code under test's refinement."""

import numpy as np
from hypothesis import strategies as st

from vf import gen, ref, strat


class Setup:

  def __init__(self, **kw):
    self.__dict__.update(kw)


def numbering(elements, d, n, seed=None, continuous=True):
  """Own numbering of the refined nodes: (E, n^d) ids and their number."""
  E = len(elements)
  if not continuous:
    ids = np.arange(E * n ** d).reshape(E, -1)
    N = ids.size
  else:
    sig = ref.signatures(elements, d, n)
    table = {}
    ids = np.array([[table.setdefault(s, len(table)) for s in row]
                    for row in sig])
    N = len(table)
  if seed is not None:
    ids = np.random.default_rng(seed).permutation(N)[ids]
  return ids, N


def curve(X, seed, amp):
  """Smooth nonlinear map of the node coordinates, the same at shared nodes."""
  d = X.shape[-1]
  rng = np.random.default_rng(seed)
  lo, hi = X.reshape(-1, d).min(0), X.reshape(-1, d).max(0)
  size = (hi - lo).max()
  t = (X - lo) / size
  K = rng.uniform(-2.5, 2.5, size=(3, d))
  ph = rng.uniform(0, 6, size=3)
  dirs = rng.uniform(-1, 1, size=(3, d))
  return X + amp * size / 3 * np.einsum(
      '...k,kd->...d', np.sin(t @ K.T + ph), dirs)


def make(case, quad=None):
  """Builds the mesh of a case {mesh, kind, n, curved, amp, renum2}."""
  from swirl_fem.core.mesh import Mesh
  m = gen.build(case['mesh'])
  d = m.ndim
  kind, n = case['kind'], case['n']
  x = ref.nodes(kind, n)
  X = ref.refined_coords(m.coords, m.elements, x)
  if case.get('curved') is not None:
    amp = .35
    xq = np.linspace(-1, 1, 5)
    for _ in range(8):
      Y = curve(X, case['curved'], amp)
      S = ref.Space(Y, x, xq, np.ones(5))
      if (S.det / np.abs(S.det).mean(axis=1, keepdims=True)).min() > .1:
        X = Y
        break
      amp *= .6
  el, N = numbering(m.elements, d, n, case.get('renum2'),
                    continuous=kind != 'gl')
  coords = np.zeros((N, d))
  coords[el] = X
  X = coords[el]
  if kind == 'nc' and (case.get('renum2') or 0) % 2 == 0:
    # the nodes of a premesh are equispaced unless specified
    from swirl_fem.core.premesh import Premesh
    mesh = Premesh.create(node_coords=coords.copy(),
                          elements=el.astype(np.int32)).finalize()
  else:
    mesh = Mesh.create(node_coords=coords, elements=el.astype(np.int32),
                       gridpoints_1d=gen.nodes1d(kind, n))
  return Setup(m=m, d=d, X=X, x=x, el=el, N=N, coords=coords, mesh=mesh)


def scaled(s, exps):
  """The same mesh in other units, which are powers of two."""
  from swirl_fem.core.mesh import Mesh
  L = 2. ** np.asarray(exps, dtype=float)
  coords = s.coords * L
  return Setup(m=s.m, d=s.d, X=coords[s.el], x=s.x, el=s.el, N=s.N,
               coords=coords, L=L, mesh=Mesh.create(
                   node_coords=coords, elements=s.el.astype(np.int32),
                   gridpoints_1d=s.mesh.gridpoints_1d))


def units(d):
  """Exponents of the units: a common one, plus small ones for each axis."""
  return st.tuples(st.one_of(st.integers(-60, 60), st.integers(-24, -8)),
                   st.one_of(st.just([0] * 3), st.lists(
                       st.integers(-4, 4), min_size=3, max_size=3))
                   ).map(lambda t: [t[0] + k for k in t[1]])


def space(s, qkind, q):
  from swirl_fem.core.fespace import FiniteElementSpace
  return FiniteElementSpace.create(mesh=s.mesh, quadrature=gen.quad1d(qkind, q))


def ref_space(s, qkind, q):
  return ref.Space(s.X, s.x, ref.nodes(qkind, q), ref.weights(qkind, q))


# Shapes (topology, node kind, points, quadrature kind, points) which are
# compiled; each shard draws from a few.
SHAPES = [
    ['line4', 'gll', 4, 'gl', 4], ['line1', 'nc', 3, 'gll', 5],
    ['quad2x2', 'nc', 2, 'gl', 3], ['quadL', 'gll', 3, 'gll', 4],
    ['tri2', 'gll', 4, 'gl', 4], ['quadO', 'nc', 2, 'gll', 3],
    ['quad2x1', 'gl', 3, 'gl', 3], ['tri2', 'nc', 3, 'gl', 2],
    ['quad1', 'gll', 6, 'gl', 7], ['hex2', 'nc', 2, 'gl', 2],
    ['hex2', 'gll', 3, 'gl', 3], ['tet4', 'gll', 2, 'gll', 3],
    ['tet4', 'nc', 3, 'gl', 3], ['hex1', 'gl', 2, 'gl', 4],
    ['line7', 'gll', 2, 'nc', 5], ['quad3x2', 'gll', 3, 'nc', 4],
    ['hexL', 'nc', 2, 'gl', 3], ['quad2x2', 'gll', 5, 'gll', 5],
]
# High orders, and more elements than fit into 8 bits.
BIG = [
    ['quad1', 'gll', 14, 'gl', 15], ['line300', 'nc', 3, 'gl', 3],
    ['hex1', 'gll', 7, 'gl', 8], ['quad12x11', 'gll', 3, 'gl', 4],
    ['quad2x2', 'gll', 9, 'gll', 10], ['hex5x5x6', 'nc', 2, 'gl', 2],
    ['line1', 'gll', 30, 'gl', 31], ['quad20x15', 'nc', 2, 'gl', 3],
    ['hex2', 'gl', 6, 'gl', 6], ['quad3x2', 'nc', 8, 'gl', 9],
]


@st.composite
def case(draw, shapes, **extra):
  shape = draw(st.sampled_from(shapes))
  out = {'mesh': draw(strat.topo_mesh([shape[0]])), 'kind': shape[1],
         'n': shape[2], 'qkind': shape[3], 'q': shape[4],
         'curved': draw(st.one_of(st.none(), strat.seeds)),
         'renum2': draw(strat.opt_seed()), 'seed': draw(strat.seeds)}
  for k, s in extra.items():
    out[k] = draw(s)
  return out


def labels(case):
  out = strat.mesh_labels(case['mesh']) + [
      f"nodes={case['kind']}{case['n']}", f"quad={case['qkind']}"]
  if case.get('curved') is not None:
    out.append('curved')
  return out


def nontrivial(case):
  return strat.mesh_nontrivial(case['mesh']) or case.get('curved') is not None


def jax_poly(p):
  """The same polynomial as a traceable function of a single point."""
  import jax.numpy as jnp

  def f(x):
    out = jnp.zeros(())
    for e, c in zip(p.exps, p.coefs):
      t = c
      for i, k in enumerate(e):
        for _ in range(k):
          t = t * x[i]
      out = out + t
    return out
  return f


def normalise(case_coords):
  """Shift and scale making polynomials of the coordinate well conditioned."""
  d = case_coords.shape[-1]
  X = case_coords.reshape(-1, d)
  c = .5 * (X.max(0) + X.min(0))
  s = float((X.max(0) - X.min(0)).max()) / 2
  return c, s
