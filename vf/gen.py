"""Generates meshes from small JSON-able specs.

A mesh spec is a dict:
  base: {'kind': 'grid', 'n': [..], 'drop': [..]}, {'kind': 'tri', 'k': k,
        'seed': s}, {'kind': 'tet', 'k': k, 'seed': s} or
        {'kind': 'extrude', 'k': k, 'seed': s, 'layers': m}
  geom: {'affine': seed|None, 'jitter': seed|None, 'amp': float}
  renum / reorder / reorient: seed or None
  periodic: list of axes (grid only); per: 'plain'|'dup'
  free_links: {'count': c, 'seed': s} or absent; arbitrary pairs of facets
  groups: list of {'name': .., 'what': 'boundary'|'interior'|'any'|'axis',
          'seed': s, 'frac': f}
  facet_orient: seed or None
  parts: {'k': k, 'seed': s, 'how': ..} or absent

`build` deterministically expands it into numpy arrays.
"""

import functools
import itertools

import numpy as np

from vf import ref


class MeshData:
  """Plain arrays of a first-order mesh (elements in tensor order)."""

  def __init__(self, **kw):
    self.__dict__.update(kw)

  @property
  def ndim(self):
    return self.coords.shape[1]

  @property
  def num_nodes(self):
    return len(self.coords)


# ---------------------------------------------------------------------------
# Symmetries.
# ---------------------------------------------------------------------------


@functools.lru_cache(maxsize=None)
def symmetries(ndim, proper=False):
  """Index permutations of the 2^d tensor-ordered corners of a cube."""
  out = []
  idx = np.arange(2 ** ndim).reshape([2] * ndim)
  for perm in itertools.permutations(range(ndim)):
    sign = round(np.linalg.det(np.eye(ndim)[list(perm)])) if ndim else 1
    for flips in itertools.product((0, 1), repeat=ndim):
      det = sign * (-1) ** sum(flips)
      if proper and det < 0:
        continue
      a = idx.transpose(perm)
      for ax, f in enumerate(flips):
        if f:
          a = np.flip(a, ax)
      out.append(tuple(a.reshape(-1).tolist()))
  return tuple(sorted(set(out)))


def element_facets(elements, ndim):
  """All (d-1)-facets: array (E, 2d, 2^{d-1}) of vertices in tensor order."""
  e = elements.reshape([len(elements)] + [2] * ndim)
  out = []
  for ax in range(ndim):
    for side in (0, 1):
      out.append(np.take(e, side, axis=1 + ax).reshape(len(elements), -1))
  return np.stack(out, axis=1)


def split_facets(elements, ndim):
  """Returns (boundary, interior) unique facets, each as listed by an element."""
  seen, order = {}, []
  for f in element_facets(elements, ndim).reshape(-1, 2 ** (ndim - 1)):
    key = tuple(sorted(f.tolist()))
    if key not in seen:
      seen[key] = [0, f]
      order.append(key)
    seen[key][0] += 1
  bnd = [seen[k][1] for k in order if seen[k][0] == 1]
  inn = [seen[k][1] for k in order if seen[k][0] > 1]
  w = 2 ** (ndim - 1)
  return (np.array(bnd, dtype=np.int64).reshape(-1, w),
          np.array(inn, dtype=np.int64).reshape(-1, w))


# ---------------------------------------------------------------------------
# Base topologies.
# ---------------------------------------------------------------------------


def _grid(n, drop):
  d = len(n)
  shape = [k + 1 for k in n]
  idx = np.arange(int(np.prod(shape))).reshape(shape)
  cells = list(itertools.product(*[range(k) for k in n]))
  keep = [c for i, c in enumerate(cells) if i not in set(drop)] or cells[:1]
  elements = np.array([
      [idx[tuple(c[i] + o[i] for i in range(d))]
       for o in itertools.product((0, 1), repeat=d)] for c in keep])
  coords = np.array(list(itertools.product(
      *[np.arange(s, dtype=float) for s in shape])))
  return coords, elements


def _compress(coords, elements):
  used = np.unique(elements)
  renum = -np.ones(len(coords), dtype=np.int64)
  renum[used] = np.arange(len(used))
  return coords[used], renum[elements]


def _lattice_points(k, d, seed):
  """Jittered lattice points, hull corners included."""
  rng = np.random.default_rng(seed)
  pts = np.array(list(itertools.product(range(k + 1), repeat=d)), float)
  inner = np.all((pts > 0) & (pts < k), axis=1)
  amp = np.where(inner[:, None], .33, .0)
  pts = pts + amp * rng.uniform(-1, 1, size=pts.shape)
  # breaks the degeneracy of cospherical points
  pts += 1e-3 * rng.uniform(-1, 1, size=pts.shape)
  return pts


def _tri(k, seed):
  """Each triangle of a Delaunay triangulation is split into three quads."""
  from scipy.spatial import Delaunay
  pts = _lattice_points(k, 2, seed)
  tris = _good(pts, Delaunay(pts).simplices)
  return _split_simplices(pts, tris)


def _tet(k, seed):
  """Each tetrahedron is split into four hexahedra."""
  from scipy.spatial import Delaunay
  rng = np.random.default_rng(seed)
  if k == 0:
    pts = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]])
    tets = np.array([[0, 1, 2, 3]])
  elif k == 1:
    pts = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.], [1, 1, 1]])
    tets = np.array([[0, 1, 2, 3], [1, 2, 3, 4]])
  else:
    pts = rng.normal(size=(3 + k, 3))
    pts /= np.linalg.norm(pts, axis=1)[:, None]
    tets = _good(pts, Delaunay(pts).simplices)
  return _split_simplices(pts, tets)


def _good(pts, simplices):
  """Drops slivers; keeps the largest face-connected part."""
  d = pts.shape[1]
  keep = []
  for s in simplices:
    p = pts[s]
    vol = abs(np.linalg.det(p[1:] - p[0]))
    h = max(np.linalg.norm(a - b) for a in p for b in p)
    if vol > .04 * h ** d:
      keep.append(s)
  keep = keep or [simplices[0]]
  # connected via facets, starting from the first
  done, todo = {0}, [0]
  while todo:
    i = todo.pop()
    for j in range(len(keep)):
      if j not in done and len(set(keep[i]) & set(keep[j])) == d:
        done.add(j)
        todo.append(j)
  return np.array([keep[i] for i in sorted(done)])


def _split_simplices(pts, simplices):
  d = pts.shape[1]
  centers, coords = {}, []

  def center(vs):
    key = tuple(sorted(int(v) for v in vs))
    if key not in centers:
      centers[key] = len(coords)
      coords.append(pts[list(key)].mean(axis=0))
    return centers[key]

  elements = []
  for s in simplices:
    s = [int(v) for v in s]
    p = pts[s]
    if np.linalg.det(p[1:] - p[0]) < 0:
      s[0], s[1] = s[1], s[0]
    for i in range(d + 1):
      others = [s[j] for j in range(d + 1) if j != i]
      best = None
      # the corner (c_1..c_d) is the center of {s_i} + {others_k: c_k = 1}
      for perm in itertools.permutations(others):
        e = [center([s[i]] + [perm[k] for k in range(d) if c[k]])
             for c in itertools.product((0, 1), repeat=d)]
        X = np.array(coords)[e]
        # positively oriented at the corner
        J = np.array([X[1 << (d - 1 - k)] - X[0] for k in range(d)])
        if np.linalg.det(J) > 0:
          best = e
          break
      elements.append(best)
  return np.array(coords), np.array(elements)


def _extrude(k, seed, layers):
  coords2, el2 = _tri(k, seed)
  n2 = len(coords2)
  coords = np.concatenate([
      np.c_[coords2, np.full(n2, float(l))] for l in range(layers + 1)])
  elements = []
  for l in range(layers):
    for e in el2:
      # axes (x, y, z), the last axis fastest
      elements.append([int(v) + (l + z) * n2 for v in e for z in (0, 1)])
  return coords, np.array(elements)


# ---------------------------------------------------------------------------
# Geometry.
# ---------------------------------------------------------------------------


def min_quality(coords, elements):
  """Smallest Jacobian determinant relative to the mean, over all elements."""
  d = coords.shape[1]
  t = np.linspace(-1, 1, 4)
  sp = ref.Space(coords[elements], np.array([-1., 1.]), t, np.ones(4))
  det = sp.det
  m = np.abs(det).mean(axis=1, keepdims=True)
  hs = np.ptp(coords[elements], axis=1).max(axis=1)
  shape = det.min(axis=1) * 2 ** d / hs ** d
  return min(float((det / m).min()), 8 * float(shape.min()))


def random_affine(rng, d, strength=1.):
  """Matrix with positive determinant and moderate condition number."""
  q, _ = np.linalg.qr(rng.normal(size=(d, d)))
  if np.linalg.det(q) < 0:
    q[0] *= -1
  p, _ = np.linalg.qr(rng.normal(size=(d, d)))
  if np.linalg.det(p) < 0:
    p[0] *= -1
  s = np.exp(strength * .4 * rng.uniform(-1, 1, size=d))
  return q @ np.diag(s) @ p


def random_rotation(rng, d):
  if d == 1:
    return np.eye(1)
  q, _ = np.linalg.qr(rng.normal(size=(d, d)))
  if np.linalg.det(q) < 0:
    q[0] *= -1
  return q


# ---------------------------------------------------------------------------
# build
# ---------------------------------------------------------------------------


def build(spec):
  base = spec['base']
  per_pairs = []
  cls = None
  if base['kind'] == 'grid':
    n = base['n']
    coords, elements = _grid(n, base.get('drop', []))
    lattice = np.round(coords).astype(int)
    per = spec.get('periodic', [])
    key = lattice.copy()
    for ax in per:
      key[:, ax] %= n[ax]
    ids = {}
    cls = np.array([ids.setdefault(tuple(r), i) for i, r in enumerate(key)])
    # links: facets at the low side and their translates at the high side
    fac = element_facets(elements, len(n)).reshape(-1, 2 ** (len(n) - 1))
    loc = {tuple(r): i for i, r in enumerate(lattice.tolist())}
    used = set(np.unique(elements).tolist())
    keys = {tuple(sorted(f.tolist())) for f in fac}
    for ax in per:
      for f in fac:
        if np.all(lattice[f, ax] == 0):
          hi = lattice[f].copy()
          hi[:, ax] = n[ax]
          g = [loc[tuple(r)] for r in hi.tolist()]
          if tuple(sorted(g)) in keys and all(v in used for v in g):
            per_pairs.append((f.copy(), np.array(g)))
  elif base['kind'] == 'tri':
    coords, elements = _tri(base['k'], base['seed'])
  elif base['kind'] == 'tet':
    coords, elements = _tet(base['k'], base['seed'])
  elif base['kind'] == 'extrude':
    coords, elements = _extrude(base['k'], base['seed'], base['layers'])
  else:
    raise ValueError(base)
  d = coords.shape[1]
  lattice = np.round(coords).astype(int)
  axis_of = None
  if base['kind'] == 'grid':
    axis_of = {}
    for f in element_facets(elements, d).reshape(-1, 2 ** (d - 1)):
      for ax in range(d):
        for side, v in ((0, 0), (1, base['n'][ax])):
          if np.all(lattice[f, ax] == v):
            axis_of[tuple(sorted(f.tolist()))] = (ax, side)

  geom = spec.get('geom') or {}
  if geom.get('jitter') is not None:
    rng = np.random.default_rng(geom['jitter'])
    h = np.ptp(coords[elements], axis=1).min()
    move = rng.uniform(-1, 1, size=coords.shape)
    if cls is not None:
      move = move[cls]
    amp = geom.get('amp', .25)
    for _ in range(12):
      new = coords + amp * h * move
      if min_quality(new, elements) > .15:
        coords = new
        break
      amp *= .6
  if geom.get('affine') is not None:
    rng = np.random.default_rng(geom['affine'])
    if d == 1:
      coords = coords * np.exp(rng.uniform(-1, 1)) + rng.uniform(-1, 1)
    else:
      coords = (coords @ random_affine(rng, d).T) * np.exp(
          rng.uniform(-.7, .7)) + rng.uniform(-1, 1, size=d)

  # Relabellings.
  facets_of = [np.array(p) for p in per_pairs]
  num = len(coords)
  used = np.unique(elements)
  relabel = -np.ones(num, dtype=np.int64)
  order = np.arange(len(used))
  if spec.get('renum') is not None:
    order = np.random.default_rng(spec['renum']).permutation(len(used))
  relabel[used] = order
  new_coords = np.empty((len(used), d))
  new_coords[order] = coords[used]
  coords, elements = new_coords, relabel[elements]
  links = [(relabel[a], relabel[b]) for a, b in facets_of]
  if axis_of is not None:
    axis_of = {tuple(sorted(relabel[list(k)].tolist())): v
               for k, v in axis_of.items()}
  if spec.get('reorient') is not None:
    rng = np.random.default_rng(spec['reorient'])
    syms = np.array(symmetries(d, proper=True))
    pick = rng.integers(0, len(syms), size=len(elements))
    elements = np.take_along_axis(elements, syms[pick], axis=1)
  if spec.get('reorder') is not None:
    elements = elements[
        np.random.default_rng(spec['reorder']).permutation(len(elements))]

  bnd, inn = split_facets(elements, d)
  fsyms = np.array(symmetries(d - 1)).reshape(-1, 2 ** (d - 1))
  fo = spec.get('facet_orient')
  frng = np.random.default_rng(fo if fo is not None else 0)

  def orient(f):
    if fo is None:
      return np.asarray(f)
    return np.asarray(f)[fsyms[frng.integers(0, len(fsyms))]]

  free = spec.get('free_links')
  if free and len(bnd) >= 2:
    rng = np.random.default_rng(free['seed'])
    perm = rng.permutation(len(bnd))
    for i in range(min(free['count'], len(bnd) // 2)):
      a, b = bnd[perm[2 * i]], bnd[perm[2 * i + 1]]
      b = b[fsyms[rng.integers(0, len(fsyms))]]
      links.append((a, b))
  if links:
    rows = []
    for a, b in links:
      s = fsyms[frng.integers(0, len(fsyms))] if fo is not None else (
          np.arange(2 ** (d - 1)))
      a, b = a[s], b[s]
      if fo is not None and frng.integers(0, 2):
        a, b = b, a
      rows.append((a, b))
    links = np.array(rows, dtype=np.int64).reshape(-1, 2, 2 ** (d - 1))
    if fo is not None:
      links = links[frng.permutation(len(links))]
  else:
    links = None

  linked = set()
  if links is not None:
    linked = {tuple(sorted(f.tolist())) for f in links.reshape(
        -1, 2 ** (d - 1))}
  groups = {}
  for g in spec.get('groups', []):
    rng = np.random.default_rng(g['seed'])
    if g['what'] == 'boundary':
      pool = bnd
    elif g['what'] == 'interior':
      pool = inn if len(inn) else bnd
    elif g['what'] == 'outer':
      pool = np.array([f for f in bnd if tuple(sorted(f.tolist())) not in
                       linked]).reshape(-1, 2 ** (d - 1))
    elif g['what'] == 'axis':
      pool = np.array([
          f for f in bnd if axis_of is not None
          and axis_of.get(tuple(sorted(f.tolist()))) == tuple(g['axis'])
      ]).reshape(-1, 2 ** (d - 1))
    else:
      pool = np.concatenate([bnd, inn])
    if not len(pool):
      continue
    frac = g.get('frac', 1.)
    count = max(1, int(round(frac * len(pool))))
    pick = rng.permutation(len(pool))[:count] if frac < 1 else np.arange(
        len(pool))
    groups[g['name']] = np.array([orient(pool[i]) for i in pick],
                                 dtype=np.int64)

  parts = None
  if spec.get('parts'):
    parts = make_partitions(spec['parts'], coords, elements)
  return MeshData(coords=coords, elements=elements, groups=groups, links=links,
                  parts=parts, boundary=bnd, interior=inn, axis_of=axis_of)


def make_partitions(p, coords, elements):
  """Assignments of elements to k parts; every part gets an element."""
  rng = np.random.default_rng(p['seed'])
  E, k = len(elements), p['k']
  k = min(k, E)
  cent = coords[elements].mean(axis=1)
  if p['how'] == 'random':
    out = rng.integers(0, k, size=E)
  elif p['how'] == 'blocks':
    out = np.sort(rng.integers(0, k, size=E))
  elif p['how'] == 'even':
    out = np.arange(E) * k // E
  elif p['how'] == 'robin':
    out = np.arange(E) % k
  else:  # 'slab': geometric slabs of unequal widths
    key = cent @ rng.normal(size=coords.shape[1])
    cuts = np.sort(rng.uniform(key.min(), key.max(), size=k - 1))
    out = np.searchsorted(cuts, key)
  for j in range(k):          # no part is empty
    if not np.any(out == j):
      big = np.bincount(out, minlength=k).argmax()
      out[np.flatnonzero(out == big)[0]] = j
  return rng.permutation(k)[out] if p['how'] != 'even' else out


# ---------------------------------------------------------------------------
# Conversion to the types of the code under test.
# ---------------------------------------------------------------------------


def to_premesh(m, **replace):
  from swirl_fem.core.premesh import Premesh
  kw = dict(node_coords=np.array(m.coords),
            elements=np.array(m.elements, dtype=np.int32),
            physical_groups={k: np.array(v, dtype=np.int32)
                             for k, v in m.groups.items()},
            periodic_links=(None if m.links is None
                            else np.array(m.links, dtype=np.int32)),
            partitions=(None if m.parts is None
                        else np.array(m.parts, dtype=np.int32)))
  kw.update(replace)
  return Premesh.create(**kw)


def node_type(kind):
  from swirl_fem.core.interpolation import NodeType
  return {'nc': NodeType.NEWTON_COTES, 'gl': NodeType.GAUSS_LEGENDRE,
          'gll': NodeType.GAUSS_LOBATTO_LEGENDRE}[kind]


def nodes1d(kind, n):
  from swirl_fem.core.interpolation import Nodes1D
  return Nodes1D.create(num_points=n, node_type=node_type(kind))


def quad1d(kind, n):
  from swirl_fem.core.interpolation import Quadrature1D
  return Quadrature1D.create(num_points=n, quadrature_type=node_type(kind))
