"""Reference of the rollout of the solver with a closure model."""
import functools

import numpy as np
from hypothesis import strategies as st

from vf import core

EXT = {1: [1.], 2: [-1., 2.], 3: [1., -3., 3.]}


@functools.lru_cache(maxsize=2)
def make_sem(grid, order):
  from swirl_fem.common import premesh_commons
  from swirl_fem.navier_stokes.navier_stokes import StokesSEM
  return StokesSEM.create(
      premesh_commons.unit_cube_mesh(grid, ndim=2, periodic_dims=(0, 1)),
      boundary_conditions={}, order=order)


def patch_order(size):
  """Elements of the 2x2 patches, by 2x2 in 4x4 patches, by 3x3 in the grid."""
  out = []
  for I in range(3):
    for J in range(3):
      for i in range(2):
        for j in range(2):
          for a in range(2):
            for b in range(2):
              out.append((4 * I + 2 * i + a) * size + 4 * J + 2 * j + b)
  return np.array(out)


def rollout(c, sem, params, u, p, model, pressure=False):
  """Of a single window; returns velocities, and sums of the KL terms.

  model(params, x) of the inputs in the order given to the model, (batch,
  elements, channels), returns the closure term and the auxiliary outputs.
  """
  import jax
  import jax.numpy as jnp
  k, n = c['time_order'], c['order'] + 1
  elements = np.asarray(sem.velocity.mesh.elements)
  y = np.asarray(sem.velocity.mesh.node_coords)[:, 1]
  N = len(y)
  drive = np.stack([np.sin(8 * np.pi * y), 0 * y], axis=-1)
  us, ps = [u[i] for i in range(k)], [p[i] for i in range(k)]
  order = patch_order(c['grid']) if c['perm'] else np.arange(len(elements))
  kls, preds, press = 0., [], []
  for i in range(c['steps']):
    x = us[-1][elements].reshape(len(elements), 2 * n * n)
    x = x.astype(jnp.float32)[order]
    f, aux = model(params, x[None])
    f = f[0]
    if i < c['push']:
      f = jax.lax.stop_gradient(f)
    kls = kls + aux['kl_q0'][0] + aux['kl_path'][0]
    nodal = jnp.zeros((N, 2)).at[elements[order].reshape(-1)].add(
        f.reshape(-1, 2))
    conv = sum(a * sem.C(w) for a, w in zip(EXT[k], us))
    rhs = sem.B(nodal + drive - c.get('drag', .5) * us[-1]) - conv
    un, pn, _ = sem.stokes_one_step(
        us, ps, rhs, mu=1 / c['re'], dt=c['dt'], alpha=c['alpha'],
        time_order=k, tol=0., atol=1e-7)
    us, ps = us[1:] + [un], ps[1:] + [pn]
    preds.append(un)
    press.append(pn)
  if pressure:
    return jnp.stack(preds), jnp.stack(press), kls, aux
  return jnp.stack(preds), kls, aux


def reference(c, sem, params, u, p, kl, model):
  """Mean over the windows: loss, errors per step, and the summed KL terms."""
  import jax
  import jax.numpy as jnp
  k = c['time_order']
  preds, kls, aux = jax.vmap(
      lambda u, p: rollout(c, sem, params, u, p, model))(u, p)
  err = preds - u[:, k:k + c['steps']]
  mse = .5 * jnp.sum(err ** 2, axis=(2, 3)).mean(axis=0)
  return mse.sum() + kl * kls.mean(), (mse, kls.mean(), aux)


# ---------------------------------------------------------------------------
# Schedules of the learning rate and of the penalty
# ---------------------------------------------------------------------------


@st.composite
def schedule_case(draw):
  return {'spe': draw(st.integers(1, 12)), 'warmup': draw(st.integers(1, 4)),
          'epochs': draw(st.integers(1, 12)), 'zero': draw(st.integers(0, 4)),
          'transition': draw(st.integers(1, 8)),
          'base': draw(st.floats(1e-4, 2)), 'kl': draw(st.floats(1e-4, 2))}


def run_schedule(case):
  import types
  from swirl_fem.niles import train
  c = case
  config = types.SimpleNamespace(
      warmup_epochs=c['warmup'], num_epochs=c['epochs'], kl_penalty=c['kl'],
      kl_transition_epochs=c['transition'], kl_zero_epochs=c['zero'])
  spe = c['spe']
  w = c['warmup'] * spe
  cos = max(c['epochs'] - c['warmup'], 1) * spe
  lr = train.create_learning_rate_fn(config, c['base'], spe)
  ud = train.create_updown_learning_rate_fn(config, c['base'], spe)
  kl = train.create_kl_penalty_fn(config, spe)
  for s in sorted({0, 1, w // 2, w - 1, w, w + 1, w + cos // 2, w + cos - 1,
                   w + cos, w + cos + 5, 2 * w, 2 * w + 3,
                   c['zero'] * spe, c['zero'] * spe + 1,
                   c['zero'] * spe + c['transition'] * spe,
                   c['zero'] * spe + c['transition'] * spe + 9}):
    if s < 0:
      continue
    ramp = c['base'] * min(s / w, 1)
    decay = .5 * (1 + np.cos(np.pi * min(max(s - w, 0) / cos, 1)))
    core.close(lr(s), ramp if s < w else c['base'] * decay, 'learning rate',
               rtol=1e-5, scale=c['base'])
    core.close(ud(s), ramp if s < w else c['base'] * (
        1 - min((s - w) / w, 1)), 'learning rate, up and down', rtol=1e-5,
               scale=c['base'])
    z = c['zero'] * spe
    core.close(kl(s), 0. if s < z else c['kl'] * min(
        (s - z) / (c['transition'] * spe), 1), 'penalty', rtol=1e-5,
               scale=c['kl'])
