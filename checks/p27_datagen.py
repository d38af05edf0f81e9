"""P27: generated datasets hold the trajectory of the Kolmogorov flow."""

import functools
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vf import core, gen, strat

RULE = ('A case is non-trivial if it has at least two cycles, or a history of '
        'different states, or a mesh with different spacings.')
PLAN = [
    {'subs': {'cycles': (7, 60)}, 'shards': (5, 12), 'env': {}},
    {'subs': {'distance': (40, 500), 'functions': (10, 60)}, 'shards': (1, 2),
     'env': {}, 'tag': 'mesh'},
    {'subs': {'simulation': (2, 10)}, 'shards': (2, 6), 'env': {},
     'tag': 'run'},
]
ASSUMPTIONS = [
    'The module constants (resolution, order, time step, ...) are set to small '
    'values before the functions are compiled.',
    'The solver itself is the one of P20-P22; the reference calls it step by '
    'step with the documented tolerances.']

EXT = {2: [-1., 2.], 3: [1., -3., 3.]}
# resolution, order, time order, steps per cycle
CONFIGS = [(2, 4, 3, 20), (3, 3, 2, 10), (4, 2, 3, 13), (2, 5, 2, 30),
           (3, 4, 3, 7), (3, 2, 2, 25), (2, 3, 3, 40), (4, 3, 2, 10)]
MINE = strat.shard_subset(CONFIGS, 2)


@st.composite
def case(draw, cycles=(1, 3)):
  res, order, k, steps = draw(st.sampled_from(MINE))
  return {'res': res, 'order': order, 'time_order': k, 'steps': steps,
          'dt': {0: 1e-3, 1: 5e-3, 2: .02}[(res + order) % 3],
          're': 50. + 30 * order, 'cycles': draw(st.integers(*cycles)),
          'start': draw(st.sampled_from([0, 0, 7, 500])),
          'history': draw(st.sampled_from(['random', 'same', 'rest'])),
          'seed': draw(strat.seeds)}


_CURRENT = [None]


def configure(c, workdir):
  """Sets the constants; compiled functions have baked in the previous ones."""
  import jax
  from swirl_fem.niles.datagen import datagen
  key = (c['res'], c['order'], c['time_order'], c['dt'], c['re'])
  if _CURRENT[0] != key:
    if _CURRENT[0] is not None:
      jax.clear_caches()
    _CURRENT[0] = key
  datagen.RESOLUTION, datagen.ORDER = c['res'], c['order']
  datagen.TIME_ORDER, datagen.DT = c['time_order'], c['dt']
  datagen.REYNOLDS_NUMBER = c['re']
  datagen.NUM_CYCLES = c['cycles']
  datagen.NUM_STEPS_PER_CYCLE = c['steps']
  if not datagen.FLAGS.is_parsed():
    datagen.FLAGS(['check'], known_only=True)
  datagen.FLAGS.workdir = workdir
  return datagen


@functools.lru_cache(maxsize=1)
def _sem(res, order):
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  return StokesSEM.create(
      premesh_commons.unit_cube_mesh(res, ndim=2, periodic_dims=(0, 1)),
      boundary_conditions={}, order=order)


def make_sem(c):
  return _sem(c['res'], c['order'])


_STEPS = {}


def stepper(c, sem):
  """One step, by the equations."""
  import jax
  import jax.numpy as jnp
  key = tuple(c[k] for k in ('res', 'order', 'time_order', 'dt', 're'))
  if key not in _STEPS:
    k = c['time_order']
    y = np.asarray(sem.velocity.mesh.node_coords)[:, 1]
    drive = np.stack([np.sin(8 * np.pi * y), 0 * y], axis=-1)

    @jax.jit
    def step(us, ps):
      conv = sum(a * sem.C(u) for a, u in zip(EXT[k], us))
      f = sem.B(jnp.asarray(drive) - .1 * us[-1]) - conv
      u, p, _ = sem.stokes_one_step(
          us, ps, f, mu=1. / c['re'], dt=c['dt'], time_order=k, tol=1e-5,
          atol=1e-4)
      return u, p
    _STEPS.clear()
    _STEPS[key] = step
  return _STEPS[key]


def trajectory(c, sem, us, ps, steps):
  step = stepper(c, sem)
  us, ps = list(us), list(ps)
  out = [(us[-1], ps[-1])]
  for _ in range(steps):
    u, p = step(tuple(us), tuple(ps))
    us, ps = us[1:] + [u], ps[1:] + [p]
    out.append((u, p))
  return [(np.asarray(u), np.asarray(p)) for u, p in out], us, ps


def perturbed(c, sem, us, ps, steps, rng):
  """How far runs from slightly different states are from the trajectory.

  The solver stops its iterations by a loose tolerance, which turns rounding
  errors into larger ones.
  """
  import jax.numpy as jnp
  want, _, _ = trajectory(c, sem, us, ps, steps)
  tol = [1e-7 * max([.1] + [np.abs(s[j]).max() for s in want])
         for j in range(2)]
  for _ in range(2):
    vs = [u + 1e-11 * jnp.asarray(rng.normal(size=u.shape)) for u in us]
    qs = [p + 1e-11 * jnp.asarray(rng.normal(size=p.shape)) for p in ps]
    got, _, _ = trajectory(c, sem, vs, qs, steps)
    for j in range(2):
      diff = max(np.abs(g[j] - w[j]).max() for g, w in zip(got, want))
      tol[j] = max(tol[j], 20 * diff)
  return tol


def check_file(c, d, first, states, tol, exact=True):
  """The file of the cycle which starts at step `first`."""
  from swirl_fem.niles import input_pipeline
  n = c['steps']
  name = (f"kolmogorov_flow_grid_{c['res']}_order_{c['order']}"
          f'_step_{first}_{first + n}.hdf5')
  core.check(name in os.listdir(d), 'no file for the cycle',
             got=sorted(os.listdir(d)), expected=name)
  data = input_pipeline.read_snapshots_file(os.path.join(d, name))
  core.check(set(data) == {'t', 'u', 'p'}, 'datasets', got=sorted(data))
  rows = range(0, n + 1, 10)
  for key in data:
    core.check(len(data[key]) == len(rows), f'number of snapshots of {key}',
               got=len(data[key]), expected=len(rows), steps=n)
    core.check(data[key].dtype == np.float64, f'type of {key}')
  core.close(data['t'], [(first + i) * c['dt'] for i in rows],
             'times of the snapshots', rtol=1e-9)
  for j, (key, what) in enumerate([('u', 'velocities'), ('p', 'pressures')]):
    want = np.stack([states[i][j] for i in rows])
    core.close(data[key], want, what, rtol=0, atol=tol[j])
  if not exact:
    return
  core.same(data['u'][0], states[0][0], 'the initial velocity of the cycle')
  core.same(data['p'][0], states[0][1], 'the initial pressure of the cycle')


def run_cycles(case):
  """Cycles from any history of states."""
  import jax.numpy as jnp
  c = case
  d = core.scratch()
  try:
    datagen = configure(c, d)
    sem = make_sem(c)
    rng = core.rng_of(case)
    x = np.asarray(sem.velocity.mesh.node_coords)
    k = c['time_order']
    us, ps = [], []
    for i in range(k):
      if c['history'] == 'same' and us:
        us.append(us[-1])
        ps.append(ps[-1])
        continue
      a, b = rng.integers(1, 3, size=2) * 2 * np.pi
      s, t = rng.uniform(0, 2 * np.pi, size=2)
      X, Y = a * x[:, 0] + s, b * x[:, 1] + t
      amp = rng.uniform(.2, 1)
      if c['history'] == 'rest':
        amp = 0.
      us.append(jnp.asarray(np.stack(
          [amp * b * np.cos(X) * np.sin(Y), -amp * a * np.sin(X) * np.cos(Y)],
          axis=-1) / max(a, b)))
      ps.append(jnp.asarray(amp * rng.normal(
          size=sem.pressure.pspace.mesh.num_nodes) * .1))
    copies = core.snapshot(*us, *ps)
    gu, gp = tuple(us), tuple(ps)
    for i in range(c['cycles']):
      first = c['start'] + i * c['steps']
      # Each cycle continues from what the one before has handed over.
      states, wu, wp = trajectory(c, sem, gu, gp, c['steps'])
      tol = perturbed(c, sem, gu, gp, c['steps'], rng)
      gu, gp = datagen.one_cycle(
          sem=sem, start_step=first, num_steps=c['steps'], us=gu, ps=gp)
      check_file(c, d, first, states, tol)
      core.check(len(gu) == k and len(gp) == k, 'length of the history',
                 got=(len(gu), len(gp)))
      for j in range(k):
        core.close(gu[j], wu[j], 'state handed to the next cycle', rtol=0,
                   atol=tol[0])
        core.close(gp[j], wp[j], 'pressure handed to the next cycle', rtol=0,
                   atol=tol[1])
    core.check(len(os.listdir(d)) == c['cycles'], 'number of files',
               got=sorted(os.listdir(d)))
    core.unchanged([*us, *ps], copies, 'one_cycle')
  finally:
    shutil.rmtree(d)


def run_simulation(case):
  """The whole program: from the initial condition, over all cycles."""
  import jax.numpy as jnp
  c = dict(case, start=0)
  d = core.scratch()
  try:
    datagen = configure(c, d)
    datagen.run_simulation()
    sem = make_sem(c)
    x = np.asarray(sem.velocity.mesh.node_coords)
    X, Y = 4 * np.pi * x.T
    u = np.stack([np.cos(X) * np.sin(Y), -np.sin(X) * np.cos(Y)], axis=-1)
    p = np.zeros(sem.pressure.pspace.mesh.num_nodes)
    us = [jnp.asarray(u)] * c['time_order']
    ps = [jnp.asarray(p)] * c['time_order']
    names = os.listdir(d)
    core.check(len(names) == c['cycles'], 'number of files', got=sorted(names),
               cycles=c['cycles'])
    total = c['cycles'] * c['steps']
    states, _, _ = trajectory(c, sem, us, ps, total)
    tol = perturbed(c, sem, us, ps, total, core.rng_of(case))
    for i in range(c['cycles']):
      first = i * c['steps']
      check_file(c, d, first, states[first:], tol, exact=False)
  finally:
    shutil.rmtree(d)


@st.composite
def distance_case(draw):
  topo = draw(st.sampled_from(
      ['line4', 'quad2x2', 'quad3x2', 'tri2', 'hex2', 'quadL', 'tet4']))
  return {'mesh': draw(strat.topo_mesh([topo])),
          'kind': draw(st.sampled_from(['nc', 'gll', 'gl'])),
          'n': draw(st.integers(2, 5)), 'seed': draw(strat.seeds)}


def run_distance(case):
  """The smallest distance between two nodes of an element."""
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.niles.datagen import datagen
  m = gen.build(case['mesh'])
  n = min(case['n'], 3) if m.ndim == 3 else case['n']
  mesh = refine_premesh(gen.to_premesh(m), gen.nodes1d(case['kind'], n)
                        ).finalize()
  want = np.inf
  for e in np.asarray(mesh.elements):
    x = np.asarray(mesh.node_coords)[e]
    for i in range(len(x)):
      for j in range(i):
        want = min(want, np.sqrt(((x[i] - x[j]) ** 2).sum()))
  core.close(datagen.compute_dx(mesh), want, 'smallest distance', rtol=1e-4,
             scale=want + 1e-2 * np.abs(np.asarray(mesh.node_coords)).max())


@st.composite
def function_case(draw):
  return {'x': [draw(st.floats(0, 1)) for _ in range(2)],
          'u': [draw(st.floats(-3, 3)) for _ in range(2)]}


def run_functions(case):
  """The initial velocity has no divergence; the forcing is the documented."""
  import jax
  import jax.numpy as jnp
  from swirl_fem.niles.datagen import datagen
  x, u = jnp.asarray(case['x']), jnp.asarray(case['u'])
  J = np.asarray(jax.jacfwd(datagen.u_init_fn)(x))
  core.close(np.trace(J), 0., 'divergence of the initial velocity', rtol=1e-12,
             scale=4 * np.pi)
  a, b = 4 * np.pi * np.asarray(x)
  core.close(datagen.u_init_fn(x),
             [np.cos(a) * np.sin(b), -np.sin(a) * np.cos(b)],
             'initial velocity', rtol=1e-12, scale=1.)
  core.close(datagen.forcing(x, u),
             np.array([np.sin(2 * b), 0.]) - .1 * np.asarray(u), 'forcing',
             rtol=1e-12, scale=1. + np.abs(np.asarray(u)).max())


def labels(c):
  return [f"order={c['order']}", f"time_order={c['time_order']}",
          f"cycles={c['cycles']}", f"steps={c['steps']}", c['history']]


SUBS = {
    'cycles': core.Sub(
        case(), run_cycles, labels,
        lambda c: c['cycles'] > 1 or c['history'] == 'random',
        'files of cycles against the trajectory of the solver'),
    'simulation': core.Sub(
        case(cycles=(2, 3)), run_simulation, labels, lambda c: True,
        'the whole program'),
    'distance': core.Sub(
        distance_case(), run_distance, lambda c: strat.mesh_labels(c['mesh']),
        lambda c: strat.mesh_nontrivial(c['mesh']) or c['n'] > 3,
        'all pairs of nodes of all elements'),
    'functions': core.Sub(function_case(), run_functions, None,
                          lambda c: True, 'pointwise'),
}
