"""P10: functionals of a form are represented exactly by their covector."""

import numpy as np
from hypothesis import strategies as st

from vf import core, fe, gen, ref, strat

RULE = ('A case is non-trivial if the form has at least two arguments, and the '
        'mesh is relabelled, deformed or curved.')
PLAN = [
    {'subs': {'forms': (45, 500), 'operators': (15, 150), 'units': (15, 200),
              'reject': (3, 20)},
     'shards': (9, 16), 'env': {}},
    {'subs': {'forms': (5, 60), 'units': (3, 40)}, 'shards': (5, 10), 'env': {},
     'tag': 'big'},
]
ASSUMPTIONS = [
    'Forms are sums of products of values, gradients and divergences of up to '
    'three nodal functions, contracted with arbitrary constant tensors and '
    'multiplied by a coefficient function of the coordinate.']
SHAPES = strat.big_or(fe.SHAPES, 2, fe.BIG, 2)
OPS = {'scalar': ['v', 'g'], 'vector': ['v', 'g', 'd']}


@st.composite
def case(draw):
  c = draw(fe.case(SHAPES))
  k = draw(st.integers(1, 3))
  args = [draw(st.sampled_from(['scalar', 'vector'])) for _ in range(k)]
  c['args'] = args
  c['spaces'] = [draw(st.integers(0, 1)) for _ in range(k)]
  c['free'] = draw(st.integers(0, k - 1))
  terms = []
  for _ in range(draw(st.integers(1, 2))):
    terms.append([draw(st.sampled_from(OPS[a])) for a in args])
  c['terms'] = terms
  c['other'] = draw(st.sampled_from([['gl', 2], ['gl', 3], ['gll', 3],
                                     ['nc', 2]]))
  c['same'] = draw(st.booleans()) and k > 1
  return c


def rank(kind, op):
  return {'v': 0 if kind == 'scalar' else 1,
          'g': 1 if kind == 'scalar' else 2, 'd': 0}[op]


LETTERS = 'abcdefghij'


def contraction(args, ops):
  """einsum subscripts of the coefficient tensor with the factors."""
  idx, subs = 0, []
  for a, o in zip(args, ops):
    r = rank(a, o)
    subs.append(LETTERS[idx:idx + r])
    idx += r
  return LETTERS[:idx], subs


def spaces(case):
  """The space of the mesh, and another on the same elements."""
  from swirl_fem.core.fespace import FiniteElementSpace
  from swirl_fem.core.mesh import Mesh
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  R = fe.ref_space(s, case['qkind'], case['q'])
  kind, n = case['other']
  # interpolate the geometry to the other nodes; exact if it's fine enough,
  # otherwise the geometries differ, thus only use straight elements
  x2 = ref.nodes(kind, n)
  X2 = ref.tensor([ref.lagrange(s.x, x2)] * s.d, s.X, 1)
  el2, N2 = fe.numbering(s.m.elements, s.d, n, case['seed'],
                         continuous=kind != 'gl')
  coords = np.zeros((N2, s.d))
  coords[el2] = X2
  mesh2 = Mesh.create(node_coords=coords, elements=el2.astype(np.int32),
                      gridpoints_1d=gen.nodes1d(kind, n))
  V2 = FiniteElementSpace.create(mesh=mesh2, quadrature=gen.quad1d(
      case['qkind'], case['q']))
  R2 = ref.Space(X2, x2, R.xq, R.wq)
  return s, [V, V2], [R, R2], [s.el, el2], [s.N, N2]


def run_forms(case):
  import jax
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  if case['curved'] is not None and 1 in case['spaces']:
    case = dict(case, curved=None)
  s, Vs, Rs, els, Ns = spaces(case)
  d, rng = s.d, core.rng_of(case)
  args, sp, free = case['args'], case['spaces'], case['free']
  p = ref.random_poly(rng, d, 1, total=True)
  jp = fe.jax_poly(p)
  tensors = []
  for ops in case['terms']:
    k, _ = contraction(args, ops)
    tensors.append(rng.normal(size=(d,) * len(k)))

  def form(*fs):
    def at(x):
      total = 0.
      for ops, K in zip(case['terms'], tensors):
        k, subs = contraction(args, ops)
        facs = [{'v': lambda f: f(x), 'g': lambda f: grad(f)(x),
                 'd': lambda f: div(f)(x)}[o](f) for o, f in zip(ops, fs)]
        total = total + jnp.einsum(','.join([k] + subs) + '->', K, *facs)
      return total * jp(x)
    return at

  def ref_form(us):
    total = 0.
    for ops, K in zip(case['terms'], tensors):
      k, subs = contraction(args, ops)
      facs = []
      for a, o, u, j in zip(args, ops, us, sp):
        R = Rs[j]
        facs.append(R.value(u) if o == 'v' else R.grad(u) if o == 'g'
                    else np.einsum('eqii->eq', R.grad(u)))
      total = total + np.einsum(
          ','.join([k] + ['zy' + t for t in subs]) + '->zy', K, *facs)
    vals = total * p(Rs[0].coords)
    return Rs[0].integrate(vals), Rs[0].integrate(np.abs(vals))

  us = []
  for a, j in zip(args, sp):
    shape = els[j].shape + (() if a == 'scalar' else (d,))
    us.append(rng.normal(size=shape))
  if case['same']:
    # the same function twice, as in the convection form
    for i in range(len(us)):
      for j in range(i):
        if args[i] == args[j] and sp[i] == sp[j] and free not in (i, j):
          us[i] = us[j]
  fs = []
  for i, (a, j, u) in enumerate(zip(args, sp, us)):
    make = Vs[j].scalar_function if a == 'scalar' else Vs[j].vector_function
    fs.append(make(None if i == free else jnp.asarray(u)))
  V = Vs[sp[free]]
  cov = np.asarray(V.local_covector(form, tuple(fs)))
  core.check(cov.shape == us[free].shape, 'shape of the covector',
             got=cov.shape, expected=us[free].shape)
  cond = max(float(np.linalg.cond(R.J).max()) for R in Rs)
  for trial in range(3):
    v = rng.normal(size=cov.shape)
    if trial == 1:
      v = v * (rng.random(len(v)) < .5).reshape((-1,) + (1,) * (v.ndim - 1))
    if trial == 2:
      v = np.zeros_like(v)
      v[tuple(rng.integers(0, k) for k in v.shape)] = 1
    vs = list(us)
    vs[free] = v
    want, scale = ref_form(vs)
    scale = max(scale, np.abs(cov * v).sum())
    core.close(np.sum(cov * v), want,
               'the covector dotted with a function, and the integral',
               rtol=2e-11 * cond, scale=scale + 1e-12)
  # the code's own integral of the form
  vs = [jnp.asarray(u) for u in us]
  full = [(Vs[j].scalar_function if a == 'scalar' else Vs[j].vector_function)(u)
          for a, j, u in zip(args, sp, vs)]
  want, scale = ref_form(us)
  core.close(V.integrate(form(*full)), want, 'integral of the form',
             rtol=2e-11 * cond, scale=scale + 1e-12)


def run_operators(case):
  """Symmetric and semi-definite operators."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  R = fe.ref_space(s, case['qkind'], case['q'])
  rng = core.rng_of(case)
  d = s.d
  cond = float(np.linalg.cond(R.J).max()) ** 2
  B = rng.normal(size=(d, d))
  B = B @ B.T
  forms = [
      ('mass', 0, lambda a, b: lambda x: a(x) * b(x)),
      ('stiffness', 0, lambda a, b: lambda x: jnp.dot(grad(a)(x), grad(b)(x))),
      ('anisotropic', 0, lambda a, b: lambda x: jnp.dot(
          grad(a)(x), jnp.dot(jnp.asarray(B), grad(b)(x)))),
      ('vector stiffness', 1, lambda a, b: lambda x: jnp.sum(
          grad(a)(x) * grad(b)(x))),
      ('grad-div', 1, lambda a, b: lambda x: div(a)(x) * div(b)(x)),
  ]
  name, vec, form = forms[case['seed'] % len(forms)]
  make = V.vector_function if vec else V.scalar_function
  shape = (s.N,) + ((d,) if vec else ())

  def apply(u, flip=False):
    f = make(jnp.asarray(u[s.el]))
    funs = (make(None), f) if flip else (f, make(None))
    return ref.scatter(np.asarray(V.local_covector(form, funs)), s.el, s.N)

  u, v = rng.normal(size=shape), rng.normal(size=shape)
  Au, Av = apply(u), apply(v)
  scale = np.abs(Au * v).sum() + np.abs(Av * u).sum() + np.abs(Au * u).sum()
  core.close(np.sum(Au * v), np.sum(u * Av), f'symmetry of {name}', rtol=0,
             atol=1e-11 * cond * scale)
  core.close(apply(u, flip=True), Au, f'free argument first: {name}',
             rtol=1e-11 * cond)
  core.check(np.sum(u * Au) >= -1e-11 * cond * scale,
             f'{name} is positive semi-definite')
  if name != 'mass':
    ones = apply(np.ones(shape))
    core.close(ones, np.zeros(shape), f'constants are in the kernel of {name}',
               rtol=0, atol=1e-10 * cond * np.abs(Au).max())


def run_units(case):
  """Covectors in other units of length."""
  import jax.numpy as jnp
  from swirl_fem.core.fespace import div, grad
  a = fe.make(case)
  d = a.d
  exps = case['exps'][:d]
  b = fe.scaled(a, exps)
  V = fe.space(b, case['qkind'], case['q'])
  R = fe.ref_space(a, case['qkind'], case['q'])
  rng = core.rng_of(case)
  u, w = rng.normal(size=a.el.shape), rng.normal(size=a.el.shape + (d,))
  v, z = rng.normal(size=a.el.shape), rng.normal(size=a.el.shape + (d,))
  L, vol = jnp.asarray(b.L), float(np.prod(b.L))
  tol = (4e-11 * float(np.linalg.cond(R.J).max()) ** 2
         * float(b.L.max() / b.L.min()) ** 2)
  nu, nv, gu, gv = R.value(u), R.value(v), R.grad(u), R.grad(v)
  dw, dz = (np.einsum('eqii->eq', R.grad(t)) for t in (w, z))
  scalar = lambda t: V.scalar_function(None if t is None else jnp.asarray(t))
  vector = lambda t: V.vector_function(None if t is None else
                                       jnp.asarray(t * b.L))
  for name, form, funs, test, vals in [
      ('mass', lambda p, q: lambda x: p(x) * q(x),
       (scalar(u), scalar(None)), v, nu * nv),
      ('stiffness', lambda p, q: lambda x: jnp.dot(
          grad(p)(x) * L, grad(q)(x) * L),
       (scalar(None), scalar(u)), v, np.sum(gu * gv, axis=-1)),
      ('divergence', lambda p, q: lambda x: div(p)(x) * q(x),
       (vector(w), scalar(None)), v, dw * nv),
      ('grad-div', lambda p, q: lambda x: div(p)(x) * div(q)(x),
       (vector(w), vector(None)), z * b.L, dw * dz)]:
    cov = np.asarray(V.local_covector(form, funs))
    scale = max(R.integrate(np.abs(vals)), np.abs(cov * test).sum() / vol)
    core.close(np.sum(cov * test) / vol, R.integrate(vals),
               f'{name} in other units', rtol=tol, scale=scale)


def run_reject(case):
  import jax.numpy as jnp
  s = fe.make(case)
  V = fe.space(s, case['qkind'], case['q'])
  mass = lambda a, b: lambda x: a(x) * b(x)
  u = jnp.ones(s.el.shape)
  for funs in ((V.scalar_function(u), V.scalar_function(u)),
               (V.scalar_function(None), V.scalar_function(None))):
    try:
      V.local_covector(mass, funs)
    except ValueError:
      continue
    raise core.Violation('a form with no or several free arguments is accepted')


def labels(c):
  out = fe.labels(c)
  if 'args' in c:
    out += [f"args={len(c['args'])}", f"terms={len(c['terms'])}"]
    if len(set(c['spaces'])) > 1:
      out.append('mixed spaces')
  return out


SUBS = {
    'forms': core.Sub(case(), run_forms, labels,
                      lambda c: fe.nontrivial(c) and len(c['args']) > 1,
                      'random forms against the reference'),
    'operators': core.Sub(fe.case(SHAPES), run_operators, fe.labels,
                          fe.nontrivial, 'symmetry, definiteness and kernels'),
    'units': core.Sub(fe.case(SHAPES, exps=fe.units(3)), run_units, fe.labels,
                      lambda c: c['exps'] != [0] * 3,
                      'meshes scaled by powers of two, per axis'),
    'reject': core.Sub(fe.case(SHAPES[:1]), run_reject, fe.labels,
                       lambda c: False, 'invalid numbers of free arguments'),
}
