"""Dense reference of the spectral element operators."""

import numpy as np
from hypothesis import strategies as st

from vf import dense, gen, ref, strat

BCS = {'dir': {'dir': 'D'}, 'mixed': {'dir': 'D', 'neu': 'N'},
       'two': {'dir': 'D', 'neu': 'N', 'dir2': 'D'}, 'neumann': {'neu': 'N'},
       'none': {}}


def boundary_conditions(m, bc):
  from swirl_fem.navier_stokes.navier_stokes import BCType
  t = {'D': BCType.DIRICHLET, 'N': BCType.NEUMANN}
  return {g: (t[k], 0.) for g, k in BCS[bc].items() if g in m.groups}


@st.composite
def case(draw, shapes, bcs=('dir', 'mixed', 'two', 'neumann', 'none'),
         **extra):
  """Mesh with periodic axes as given by the shape and random groups."""
  shape = draw(st.sampled_from(shapes))
  mesh = draw(strat.topo_mesh([shape[0]]))
  if shape[1]:
    mesh['periodic'] = list(shape[1])
  frac = lambda: draw(st.sampled_from([1., 1., .6, .3]))
  mesh['groups'] = [
      {'name': 'neu', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': frac()},
      {'name': 'dir', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': frac()},
      {'name': 'dir2', 'what': 'outer', 'seed': draw(strat.seeds),
       'frac': .2}]
  out = {'mesh': mesh, 'order': shape[2], 'bc': draw(st.sampled_from(bcs)),
         'seed': draw(strat.seeds)}
  for k, s in extra.items():
    out[k] = draw(s)
  return out


def labels(case):
  return strat.mesh_labels(case['mesh']) + [
      f"order={case['order']}", f"bc={case['bc']}"]


class RefSEM:
  """Arrays of the operators for a given mesh and the numbering of `sem`."""

  def __init__(self, m, order, bc, sem, overint=2):
    self.m, self.order, self.d = m, order, m.ndim
    d = self.d
    x = self.x = ref.nodes('gll', order + 1)
    w = ref.weights('gll', order + 1)
    self.el = np.asarray(sem.velocity.mesh.elements)
    self.pel = np.asarray(sem.pressure.pspace.mesh.elements)
    self.X = ref.refined_coords(m.coords, m.elements, x)
    self.N, self.P = int(self.el.max()) + 1, int(self.pel.max()) + 1
    self.coords = np.zeros((self.N, d))
    self.coords[self.el] = self.X
    self.xp = ref.nodes('gl', order - 1)
    self.Xp = ref.refined_coords(m.coords, m.elements, self.xp)
    self.pcoords = np.zeros((self.P, d))
    self.pcoords[self.pel] = self.Xp
    self.S = ref.Space(self.X, x, x, w)
    xo = ref.nodes('gll', order + 1 + overint)
    self.So = ref.Space(self.X, x, xo, ref.weights('gll', order + 1 + overint))
    # identified nodes: via the positions of the linked facets
    pairs = []
    if m.links is not None:
      flat, ids = self.X.reshape(-1, d), self.el.reshape(-1)
      tol = 1e-7 * np.ptp(flat, axis=0).max()
      find = lambda p: ids[np.flatnonzero(np.abs(flat - p).max(1) < tol)[0]]
      for a, b in m.links:
        A = ref.refined_coords_facets(m.coords, a[None], x)[0]
        B = ref.refined_coords_facets(m.coords, b[None], x)[0]
        pairs += [(find(p), find(q)) for p, q in zip(A, B)]
    self.cls = ref.classes(self.N, pairs)
    self.mask = np.ones(self.N)
    for g, k in BCS[bc].items():
      if k == 'D' and g in m.groups:
        hit = dense.facet_nodes(m, g, self.X, self.el, x)
        self.mask[np.isin(self.cls, self.cls[hit])] = 0.
    # scalar matrices
    self.mass = ref.scatter(self.S.det * self.S.w, self.el, self.N)
    self.xmass = ref.exchange(self.mass, self.cls)
    self.qqt = ref.scatter(np.ones_like(self.S.det), self.el, self.N)
    self.K = dense.assemble(dense.stiffness(self.S), self.el, self.N)
    # divergence (P, N, d)
    _, g = dense.basis(self.S)
    psi = ref.tensor([ref.lagrange(self.xp, x)] * d, np.eye(
        len(self.xp) ** d)[None], 1)[0]
    loc = np.einsum('eq,qp,eqdi->epid', self.S.det * self.S.w, psi, g,
                    optimize=True)
    self.Dm = np.zeros((self.P, self.N, d))
    for e in range(len(self.el)):
      np.add.at(self.Dm, (self.pel[e][:, None], self.el[e][None, :]), loc[e])
    pm = np.einsum('eq,qi,qj->eij', self.S.det * self.S.w, psi, psi)
    self.PM = dense.assemble(pm, self.pel, self.P)

  def B(self, u):
    return self.mask[:, None] * self.mass[:, None] * u

  def Bi(self, u):
    return ref.exchange(u, self.cls) / self.xmass[:, None]

  def A(self, u):
    return self.mask[:, None] * (self.K @ u)

  def D(self, u):
    return np.einsum('pnd,nd->p', self.Dm, u)

  def Dt(self, p):
    return self.mask[:, None] * np.einsum('pnd,p->nd', self.Dm, p)

  def C(self, u):
    S = self.So
    U = u[self.el]
    v, g = S.value(U), S.grad(U)             # g[e, q, i, j] = d u_j / d x_i
    c = np.einsum('eqi,eqij->eqj', v, g)
    loc = np.einsum('eq,eqj,qn->enj', S.det * S.w, c, dense.basis(S)[0],
                    optimize=True)
    return self.mask[:, None] * ref.scatter(loc, self.el, self.N)

  def average(self, local):
    q = self.qqt.reshape((-1,) + (1,) * (np.ndim(local) - 2))
    return ref.scatter(local, self.el, self.N) / q

  def filter(self, u, alpha):
    lo = ref.nodes('gll', self.order)
    F = ref.lagrange(lo, self.x) @ ref.lagrange(self.x, lo)
    loc = ref.tensor([F] * self.d, u[self.el], 1)
    return (1 - alpha) * u + alpha * self.average(loc)

  def vorticity(self, u):
    g = self.S.grad(u[self.el])
    return self.average(g[:, :, 0, 1] - g[:, :, 1, 0])

  def periodic(self, u):
    """Copies the values of the representatives to their images."""
    return u[self.cls]

  # -- fractional step --

  def restriction(self):
    """(N, F) map from the free classes to the nodes."""
    free = np.unique(self.cls[self.mask > 0])
    R = np.zeros((self.N, len(free)))
    pos = {c: i for i, c in enumerate(free)}
    for i in range(self.N):
      if self.mask[i] > 0:
        R[i, pos[self.cls[i]]] = 1.
    return R

  def pressure_matrix(self):
    """D B^-1 Dt without the factor dt / beta."""
    R = self.restriction()
    DR = np.einsum('pnd,nf->pdf', self.Dm, R)
    w = 1. / (R.T @ self.mass)
    return np.einsum('pdf,f,qdf->pq', DR, w, DR, optimize=True)

  def step(self, us, ps, f, mu, dt, k, alpha, u_boundary=None):
    """One step by dense solves; the pressure correction has zero mean if the
    flow is enclosed."""
    beta = {1: [-1., 1.], 2: [.5, -2., 1.5],
            3: [-1 / 3, 1.5, -3., 11 / 6]}[k]
    p_ext = 2 * ps[-1] - ps[-2]
    b = f + self.Dt(p_ext) - self.B(sum(
        c * u for c, u in zip(beta[:-1], us))) / dt
    ub = np.zeros_like(us[-1]) if u_boundary is None else u_boundary
    H = lambda u: beta[-1] / dt * self.B(u) + mu * self.A(u)
    b = b - H(ub)
    R = self.restriction()
    Hm = beta[-1] / dt * np.diag(self.mass) + mu * self.K
    Hr = R.T @ Hm @ R
    us_ = R @ np.linalg.solve(Hr, R.T @ b) + ub
    condH = np.linalg.cond(Hr) if len(Hr) else 1.
    star = self.filter(us_, alpha)
    E = dt / beta[-1] * self.pressure_matrix()
    lam, V = np.linalg.eigh(E)
    good = lam > 1e-10 * lam[-1]
    rhs = -self.D(star)
    z = V.T @ rhs
    self.incompatible = np.abs(z[~good]).max(initial=0) / (
        np.abs(rhs).max() + 1e-300)
    dp = V[:, good] @ (z[good] / lam[good])
    null = V[:, ~good]
    if null.shape[1] == 1:
      one = np.ones(self.P)
      dp = dp - one * (one @ self.PM @ dp) / (one @ self.PM @ one)
    self.null, self.condE = null, lam[-1] / lam[good][0] if good.any() else 1.
    self.condH = condH
    u = star + dt / beta[-1] * self.Bi(self.Dt(dp))
    return u, p_ext + dp, star, dp
