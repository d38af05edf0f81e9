"""Writes Gmsh files (2.2 and 4.1 ASCII, 4.1 binary) from plain arrays.

Follows the description of the MSH format of the Gmsh manual; independent of
meshio and of the code under test.
"""

import struct

import numpy as np

# Positions of the Gmsh nodes in tensor-product order (last axis fastest).
# Gmsh: quadrangle (0,0) (1,0) (1,1) (0,1); hexahedron the same for z=0, z=1.
TO_GMSH = {0: [0], 1: [0, 1], 2: [0, 2, 3, 1], 3: [0, 4, 6, 2, 1, 5, 7, 3]}
TYPE = {0: 15, 1: 1, 2: 3, 3: 5}


def to_gmsh(elements, d):
  return np.asarray(elements)[:, TO_GMSH[d]]


class Block:
  """Cells of one entity: dimension of the entity, tag, tensor-order nodes."""

  def __init__(self, dim, tag, cells):
    self.dim, self.tag, self.cells = dim, tag, cells


def write(path, fmt, coords, tags, node_blocks, blocks, periodic, names=None,
          periodic_header=True):
  """coords: (N, 3) in file order; tags: (N,) positive tags of the nodes.

  node_blocks: list of (dim, entity, start, stop) covering 0..N in order.
  periodic: list of (dim, entity, master entity, pairs of node indices) or None.
  """
  if fmt == '2.2':
    _write22(path, coords, tags, blocks, periodic, names)
  else:
    _write41(path, coords, tags, node_blocks, blocks, periodic, names,
             binary=fmt == '4.1b')


def _names(names):
  out = f'$PhysicalNames\n{len(names)}\n'
  for i, (dim, name) in enumerate(names):
    out += f'{dim} {i + 1} "{name}"\n'
  return out + '$EndPhysicalNames\n'


def _write22(path, coords, tags, blocks, periodic, names):
  o = ['$MeshFormat', '2.2 0 8', '$EndMeshFormat']
  text = '\n'.join(o) + '\n'
  if names:
    text += _names(names)
  o = ['$Nodes', str(len(coords))]
  for t, x in zip(tags, coords):
    o.append(f'{t} ' + ' '.join(repr(float(v)) for v in x))
  o += ['$EndNodes', '$Elements', str(sum(len(b.cells) for b in blocks))]
  k = 1
  for b in blocks:
    for c in to_gmsh(b.cells, b.dim):
      o.append(f'{k} {TYPE[b.dim]} 2 0 {b.tag} ' + ' '.join(
          str(tags[v]) for v in c))
      k += 1
  o.append('$EndElements')
  if periodic is not None:
    o += ['$Periodic', str(len(periodic))]
    for dim, ent, master, pairs in periodic:
      o.append(f'{dim} {ent} {master}')
      if dim > 0:
        o.append('Affine ' + ' '.join(
            repr(float(v)) for v in np.eye(4).reshape(-1)))
      o.append(str(len(pairs)))
      o += [f'{tags[a]} {tags[b]}' for a, b in pairs]
    o.append('$EndPeriodic')
  with open(path, 'w') as f:
    f.write(text + '\n'.join(o) + '\n')


def _write41(path, coords, tags, node_blocks, blocks, periodic, names, binary):
  f = open(path, 'wb')

  def ints(*v):
    f.write(struct.pack(f'<{len(v)}i', *[int(x) for x in v]) if binary else
            (' '.join(str(int(x)) for x in v) + ' ').encode())

  def sizes(*v):
    f.write(struct.pack(f'<{len(v)}Q', *[int(x) for x in v]) if binary else
            (' '.join(str(int(x)) for x in v) + ' ').encode())

  def doubles(*v):
    f.write(struct.pack(f'<{len(v)}d', *[float(x) for x in v]) if binary else
            (' '.join(repr(float(x)) for x in v) + ' ').encode())

  def nl():
    if not binary:
      f.write(b'\n')

  f.write(f'$MeshFormat\n4.1 {int(binary)} 8\n'.encode())
  if binary:
    f.write(struct.pack('<i', 1) + b'\n')
  f.write(b'$EndMeshFormat\n')
  if names:
    f.write(_names(names).encode())
  # every entity which has nodes or cells, or is periodic
  ents = {(b.dim, b.tag) for b in blocks}
  ents |= {(d, e) for d, e, _, _ in node_blocks}
  for p in periodic or []:
    ents |= {(p[0], p[1]), (p[0], p[2])}
  f.write(b'$Entities\n')
  per_dim = [sorted(t for d, t in ents if d == k) for k in range(4)]
  sizes(*[len(p) for p in per_dim])
  nl()
  lo, hi = coords.min(axis=0), coords.max(axis=0)
  for d in range(4):
    for t in per_dim[d]:
      ints(t)
      doubles(*(lo if d == 0 else [*lo, *hi]))
      phys = [i + 1 for i, (dim, _) in enumerate(names or []) if dim == d][:1]
      sizes(len(phys))
      ints(*phys) if phys else None
      if d > 0:
        sizes(0)
      nl()
  f.write(b'\n$EndEntities\n' if binary else b'$EndEntities\n')
  f.write(b'$Nodes\n')
  sizes(len(node_blocks), len(coords), min(tags), max(tags))
  nl()
  for d, e, a, b in node_blocks:
    ints(d, e, 0)
    sizes(b - a)
    nl()
    for t in tags[a:b]:
      sizes(t)
      nl()
    for x in coords[a:b]:
      doubles(*x)
      nl()
  f.write(b'\n$EndNodes\n' if binary else b'$EndNodes\n')
  f.write(b'$Elements\n')
  total = sum(len(b.cells) for b in blocks)
  sizes(len(blocks), total, 1, total)
  nl()
  k = 1
  for b in blocks:
    ints(b.dim, b.tag, TYPE[b.dim])
    sizes(len(b.cells))
    nl()
    for c in to_gmsh(b.cells, b.dim):
      sizes(k, *[tags[v] for v in c])
      nl()
      k += 1
  f.write(b'\n$EndElements\n' if binary else b'$EndElements\n')
  if periodic is not None:
    f.write(b'$Periodic\n')
    sizes(len(periodic))
    nl()
    for d, e, m, pairs in periodic:
      ints(d, e, m)
      nl()
      if d > 0:
        sizes(16)
        doubles(*np.eye(4).reshape(-1))
      else:
        sizes(0)
      nl()
      sizes(len(pairs))
      nl()
      for a, b in pairs:
        sizes(tags[a], tags[b])
        nl()
    f.write(b'\n$EndPeriodic\n' if binary else b'$EndPeriodic\n')
  f.close()
