"""Dense element matrices and assembly with the reference space."""

import numpy as np

from vf import ref


def basis(S):
  """Values (Q, n^d) and physical gradients (E, Q, d, n^d) of the basis."""
  E, m = S.X.shape[:2]
  eye = np.broadcast_to(np.eye(m), (E, m, m))
  return S.value(eye)[0], S.grad(eye)


def mass(S, other=None):
  """Local mass matrices (E, m, m)."""
  phi, _ = basis(S)
  return np.einsum('eq,qi,qj->eij', S.det * S.w, phi, phi)


def stiffness(S):
  _, g = basis(S)
  return np.einsum('eq,eqdi,eqdj->eij', S.det * S.w, g, g, optimize=True)


def assemble(local, el, N):
  out = np.zeros((N, N))
  for e, ids in enumerate(el):
    np.add.at(out, (ids[:, None], ids[None, :]), local[e])
  return out


def facet_nodes(m, name, X, el, x):
  """Refined nodes on the facets of a group, by their position.

  X: coordinates of the nodes of the elements *before* any curving.
  """
  pts = ref.refined_coords_facets(m.coords, m.groups[name], x)
  flat = X.reshape(-1, X.shape[-1])
  ids = el.reshape(-1)
  tol = 1e-7 * np.ptp(flat, axis=0).max()
  out = set()
  for p in pts.reshape(-1, pts.shape[-1]):
    hit = np.flatnonzero(np.abs(flat - p).max(axis=1) < tol)
    assert len(hit), 'facet node not found'
    out |= set(ids[hit].tolist())
  return np.array(sorted(out))
