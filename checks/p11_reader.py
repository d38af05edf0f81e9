"""P11: reading a mesh file preserves geometry, topology and periodicity."""

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, gmsh, ref, strat

RULE = ('A case is non-trivial if the mesh is relabelled or deformed, or is '
        'periodic, with more than one element.')
PLAN = [
    {'subs': {'read': (500, 2500), 'periodic': (400, 2500), 'reject': (15, 100),
              'large': (2, 12)},
     'shards': (4, 8), 'env': {}},
]
ASSUMPTIONS = [
    'Files in the MSH formats 2.2 and 4.1. In periodic files the nodes have '
    'consecutive tags, as Gmsh writes them: meshio does not translate the tags '
    'of the periodic section.',
    'Periodic files contain the cells of the periodic facets (Gmsh drops them '
    'only if physical groups were defined without them).']


@st.composite
def case(draw, periodic=False):
  if periodic:
    d = draw(st.sampled_from([2, 2, 3]))
    n = [draw(st.integers(1, 4 if d == 2 else 3)) for _ in range(d)]
    if draw(st.booleans()):
      n[draw(st.integers(0, d - 1))] = 1
    cells = int(np.prod(n))
    drop = draw(st.lists(st.integers(0, cells - 1), max_size=cells // 4,
                         unique=True))
    mesh = {'base': {'kind': 'grid', 'n': n, 'drop': sorted(drop)},
            'geom': draw(strat.geom()), 'renum': draw(strat.opt_seed()),
            'reorder': draw(strat.opt_seed()),
            'reorient': draw(strat.opt_seed()),
            'periodic': sorted(draw(st.sets(st.integers(0, d - 1),
                                            min_size=1))),
            'facet_orient': draw(strat.opt_seed())}
  else:
    mesh = draw(strat.free_mesh(periodic=False, with_groups=False))
  return {'mesh': mesh, 'fmt': draw(st.sampled_from(['2.2', '4.1', '4.1b'])),
          'tags': 'plain' if periodic else draw(
              st.sampled_from(['plain', 'sparse', 'shuffled'])),
          'facets': draw(st.sampled_from(['none', 'boundary', 'some'])),
          'low': draw(st.booleans()), 'unused': draw(st.integers(0, 2)),
          'split': draw(st.integers(1, 3)), 'names': draw(st.booleans()),
          'seed': draw(strat.seeds)}


@st.composite
def large_case(draw):
  """Many nodes (tags which do not fit into 16 bits)."""
  per = draw(st.booleans())
  c = draw(case(periodic=per))
  mesh = draw(strat.free_mesh(periodic=False, with_groups=False))
  grids = [[190, 180], [20, 31], [33, 32, 31], [9, 8, 10]]
  if not per:
    grids.append([40000])
  n = draw(st.sampled_from(grids))
  mesh['base'] = {'kind': 'grid', 'n': n}
  if per:
    mesh['periodic'] = sorted(draw(st.sets(st.integers(0, len(n) - 1),
                                           min_size=1)))
  c['mesh'] = mesh
  return c


def chop(rng, rows, k):
  """Splits rows into up to k non-empty runs."""
  cuts = sorted(set(rng.integers(1, max(2, len(rows)), size=k - 1).tolist()))
  return [c for c in np.split(np.asarray(rows), cuts) if len(c)]


def make_file(case, path):
  """Writes the file; returns (mesh, expected coordinates, links as sets)."""
  rng = core.rng_of(case)
  m = gen.build(case['mesh'])
  d = m.ndim
  coords = m.coords
  if case['unused']:
    # nodes which no element uses, at the end
    extra = rng.normal(size=(case['unused'], d))
    coords = np.concatenate([coords, extra])
  N = len(coords)
  x3 = np.zeros((N, 3))
  x3[:, :d] = coords
  if d < 3 and rng.random() < .3:
    x3[:, d:] = rng.normal(size=3 - d)   # an embedded, parallel plane
  if case['tags'] == 'plain':
    tags = np.arange(1, N + 1)
  elif case['tags'] == 'sparse':
    tags = np.sort(rng.permutation(4 * N)[:N]) + 1
  else:
    tags = rng.permutation(2 * N)[:N] + 1
  tags = [int(t) for t in tags]

  # the elements, split among entities
  blocks, ent = [], 1
  for c in chop(rng, m.elements, case['split']):
    blocks.append(gmsh.Block(d, ent, c))
    ent += 1
  facet_blocks, ent = [], 1
  periodic, expected = None, []
  links = m.links if m.links is not None else []
  listed = set()
  if len(links):
    periodic = []
    by_axis = {}
    for a, b in links:
      ax, side = m.axis_of[tuple(sorted(a.tolist()))]
      if m.axis_of[tuple(sorted(b.tolist()))] != (ax, 1 - side):
        raise core.HarnessError('a pair of facets is not on opposite sides')
      if side:
        a, b = b, a
      by_axis.setdefault(ax, []).append((a, b))
    for ax in sorted(by_axis):
      pairs = np.array(by_axis[ax])
      pairs = pairs[rng.permutation(len(pairs))]
      for part in chop(rng, pairs, case['split']):
        slave = int(rng.random() < .5)
        src, tgt = part[:, slave], part[:, 1 - slave]
        es, et = ent, ent + 1
        ent += 2
        facet_blocks.append(gmsh.Block(d - 1, es, facets_as(rng, src, d)))
        facet_blocks.append(gmsh.Block(d - 1, et, facets_as(rng, tgt, d)))
        mapping = {}
        for s, t in zip(src.reshape(-1), tgt.reshape(-1)):
          mapping[int(s)] = int(t)
        items = list(mapping.items())
        items = [items[i] for i in rng.permutation(len(items))]
        periodic.append((d - 1, es, et, items))
        for s, t in zip(src, tgt):
          listed |= {tuple(sorted(s.tolist())), tuple(sorted(t.tolist()))}
          expected.append(frozenset(
              tuple(sorted((int(i), int(j)))) for i, j in zip(s, t)))
        if rng.random() < .5:
          # Gmsh also lists the periodic entities of lower dimension
          k = min(len(items), 2)
          periodic.append((0, int(items[0][0]) + 1, int(items[0][1]) + 1,
                           items[:1]))
          if d == 3:
            periodic.append((1, 100 + ent, 101 + ent, items[:k]))
    periodic = [periodic[i] for i in rng.permutation(len(periodic))]
  if d > 1 and case['facets'] != 'none':
    rest = [f for f in m.boundary if tuple(sorted(f.tolist())) not in listed]
    # (a lone facet amidst a periodic entity can't be told from a part of it)
    for dim, _, _, items in periodic or []:
      if dim == d - 1:
        src = {a for a, _ in items}
        rest = [f for f in rest if not src.issuperset(f.tolist())]
    if case['facets'] == 'some':
      rest = [f for f in rest if rng.random() < .6]
    if rest:
      facet_blocks.append(gmsh.Block(d - 1, ent, facets_as(
          rng, np.array(rest), d)))
      ent += 1
  low = []
  if case['low']:
    ids = rng.integers(0, N, size=2)
    low.append(gmsh.Block(0, int(ids[0]) + 1, ids[:1, None]))
    if d == 3:
      e = m.elements[0].reshape(2, 2, 2)
      low.append(gmsh.Block(1, 50, e[0, 0][None]))
  allb = low + facet_blocks + blocks
  if rng.random() < .3:
    allb = [allb[i] for i in rng.permutation(len(allb))]
    blocks = [b for b in allb if b.dim == d]
  elements = np.concatenate([b.cells for b in blocks])
  cuts = sorted({0, N} | set(rng.integers(0, N + 1, size=2).tolist()))
  node_blocks = [(int(rng.integers(0, d + 1)), 1 + i, a, b)
                 for i, (a, b) in enumerate(zip(cuts[:-1], cuts[1:]))]
  names = None
  if case['names']:
    # Gmsh then writes only cells which are in a physical group
    names = [(k, f'group {k}') for k in sorted({b.dim for b in allb})]
  gmsh.write(path, case['fmt'], x3, tags, node_blocks, allb, periodic, names)
  return m, coords, elements, expected


def facets_as(rng, facets, d):
  """The facets with their nodes listed from any corner, in either sense."""
  sym = gen.symmetries(d - 1)
  return np.array([f[list(sym[rng.integers(len(sym))])] for f in facets])


def run_read(case):
  from swirl_fem.common import mesh_reader
  tmp = core.scratch()
  try:
    path = os.path.join(tmp, 'mesh.msh')
    m, coords, elements, expected = make_file(case, path)
    p = mesh_reader.read(path, ndim=m.ndim)
  finally:
    shutil.rmtree(tmp)
  d = m.ndim
  core.same(p.node_coords, coords, 'coordinates of the nodes')
  el = np.asarray(p.elements)
  core.check(el.shape == elements.shape, 'shape of the elements',
             got=el.shape, expected=elements.shape)
  proper = set(gen.symmetries(d, proper=True))
  for e in range(len(el)):
    pos = {int(v): i for i, v in enumerate(elements[e])}
    core.check(all(int(v) in pos for v in el[e]), 'nodes of an element',
               element=e, got=el[e].tolist(), expected=elements[e].tolist())
    core.check(tuple(pos[int(v)] for v in el[e]) in proper,
               'node order of an element', element=e, got=el[e].tolist(),
               tensor=elements[e].tolist())
  # orientation, from the geometry
  S = ref.Space(np.asarray(p.node_coords)[el], np.array([-1., 1.]),
                np.array([-.9, .9]), np.ones(2))
  core.check(np.all(S.det > 0), 'an element is not positively oriented')
  if not expected:
    core.check(p.periodic_links is None or not len(p.periodic_links),
               'links of a file without periodicity')
    return
  got = np.asarray(p.periodic_links)
  core.check(got.ndim == 3 and got.shape[1:] == (2, 2 ** (d - 1)),
             'shape of the links', got=got.shape, expected=len(expected))
  # (a facet may be linked repeatedly, if its nodes also lie on another entity)
  have = {frozenset(tuple(sorted((int(i), int(j)))) for i, j in zip(a, b))
          for a, b in got}
  core.check(have == set(expected), 'pairs of linked nodes',
             missing=[sorted(e) for e in set(expected) - have][:3],
             extra=[sorted(e) for e in have - set(expected)][:3])
  # the facets are listed like facets of elements, in tensor-product order
  table = {}
  for f in gen.element_facets(el, d).reshape(-1, 2 ** (d - 1)):
    table.setdefault(tuple(sorted(f.tolist())), f)
  orient = set(gen.symmetries(d - 1))
  for a, b in got:
    for f in (a, b):
      key = tuple(sorted(f.tolist()))
      core.check(key in table, 'a linked facet is no facet of an element',
                 facet=f.tolist())
      pos = {int(v): i for i, v in enumerate(table[key])}
      core.check(tuple(pos[int(v)] for v in f) in orient,
                 'node order of a linked facet', facet=f.tolist())
  if len(el) < 5000:
    chain(case, p, m, d)


def chain(case, p, m, d):
  """The premesh refines, and identifies the nodes which are periodic."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  n = 3 if case['seed'] % 3 else 4
  r = refine_premesh(p, gen.nodes1d('gll', n))
  el = np.asarray(r.elements)
  sig = ref.signatures(np.asarray(p.elements), d, n)
  node = {}
  for e in range(len(el)):
    for k in range(el.shape[1]):
      node[sig[e][k]] = int(el[e, k])
  N = len(np.asarray(r.node_coords))
  pairs = []
  for a, b in m.links:
    sa, sb = ref.signatures(np.array([a, b]), d - 1, n)
    pairs += [(node[s], node[t]) for s, t in zip(sa, sb)]
  want = ref.classes(N, pairs)
  links = np.asarray(r.periodic_links)
  got = ref.classes(N, np.transpose(links, (0, 2, 1)).reshape(-1, 2))
  core.same(got, want, 'nodes identified after the refinement')


def run_reject(case):
  from swirl_fem.common import mesh_reader
  with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'mesh.msh')
    m, *_ = make_file(dict(case, facets='none', low=False), path)
    for bad in (0, 4, -1):
      rejected(lambda: mesh_reader.read(path, ndim=bad), f'dimension {bad}')
    if m.links is None:
      for other in {1, 2, 3} - {m.ndim}:
        rejected(lambda: mesh_reader.read(path, ndim=other),
                 f'no elements of dimension {other}')


def rejected(f, what):
  try:
    f()
  except ValueError:
    return
  raise core.Violation(f'not rejected: {what}')


def labels(case):
  return strat.mesh_labels(case['mesh']) + [
      f"format={case['fmt']}", f"tags={case['tags']}",
      f"facets={case['facets']}"] + (['unused nodes'] if case['unused'] else [])


def nontrivial(case):
  return strat.mesh_nontrivial(case['mesh']) or bool(
      case['mesh'].get('periodic'))


SUBS = {
    'read': core.Sub(case(), run_read, labels, nontrivial,
                     'files of any mesh, in three formats'),
    'periodic': core.Sub(case(periodic=True), run_read, labels, nontrivial,
                         'files with periodic entities'),
    'large': core.Sub(large_case(), run_read, labels, nontrivial,
                      'files of many nodes'),
    'reject': core.Sub(case(), run_reject, labels, nontrivial,
                       'missing elements, invalid dimensions'),
}
