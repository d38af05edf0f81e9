"""Float64 references of the networks of the closure model."""
import numpy as np


def pool(x, window, strides, mode):
  """Pooling of (batch, *spatial, features) with 'same' padding, by loops."""
  spatial = x.shape[1:-1]
  out_shape = [-(-n // s) for n, s in zip(spatial, strides)]
  lo = [max((o - 1) * s + w - n, 0) // 2
        for o, s, w, n in zip(out_shape, strides, window, spatial)]
  out = np.zeros((x.shape[0], *out_shape, x.shape[-1]))
  for idx in np.ndindex(*out_shape):
    vals = []
    for off in np.ndindex(*window):
      pos = [i * s - l + o for i, s, l, o in zip(idx, strides, lo, off)]
      if all(0 <= p < n for p, n in zip(pos, spatial)):
        vals.append(x[(slice(None), *pos)])
    vals = np.stack(vals)
    out[(slice(None), *idx)] = (
        vals.max(axis=0) if mode == 'max' else
        vals.sum(axis=0) / np.prod(window))
  return out


def attention_pool(x, window, strides, mode, heads):
  """The reference of `attention_pooling` for a window per spatial axis."""
  if mode != 'none' and len(window) and np.prod(window) != 1:
    x = pool(x, window, strides, mode)
  d = x.shape[-1] // heads
  return np.stack([x[..., h * d:(h + 1) * d] for h in range(heads)], axis=-2)


def dense(p, x):
  k = np.asarray(p['kernel'], np.float64)
  axes = k.ndim - 1
  out = np.tensordot(x, k, axes=axes)
  return out + np.asarray(p['bias'], np.float64) if 'bias' in p else out


def norm(p, x):
  m = x.mean(axis=-1, keepdims=True)
  v = ((x - m) ** 2).mean(axis=-1, keepdims=True)
  y = (x - m) / np.sqrt(v + 1e-6) * np.asarray(p['scale'], np.float64)
  return y + np.asarray(p['bias'], np.float64) if 'bias' in p else y


def gelu(x):
  return .5 * x * (1 + np.tanh(np.sqrt(2 / np.pi) * (x + .044715 * x ** 3)))


def mlp(p, x):
  return dense(p['Dense_1'], gelu(dense(p['Dense_0'], x)))


def attend(q, k, v):
  """(batch, length, heads, dim), head by head."""
  out = np.zeros(q.shape[:3] + (v.shape[-1],))
  for b in range(q.shape[0]):
    for h in range(q.shape[2]):
      s = q[b, :, h] @ k[b, :, h].T / np.sqrt(q.shape[-1])
      w = np.exp(s - s.max(axis=1, keepdims=True))
      out[b, :, h] = (w / w.sum(axis=1, keepdims=True)) @ v[b, :, h]
  return out


def down(p, x, c, mode):
  q, k, v = (dense(p[n], x) for n in ['query', 'key', 'value'])
  q = attention_pool(q, [c['wq']], [c['sq']], mode, c['heads'])
  k = attention_pool(k, [c['wkv']], [c['skv']], mode, c['heads'])
  v = attention_pool(v, [c['wkv']], [c['skv']], mode, c['heads'])
  y = attend(q, k, v)
  return y + q if c['residual'] else y


def up(p, x, c):
  q, k, v = (dense(p[n], x) for n in ['query', 'key', 'value'])
  h = lambda a: attention_pool(np.concatenate([a] * c['reps'], axis=1), [], [],
                               'none', c['heads'])
  q, k, v = h(q), h(k), h(v)
  y = attend(q, k, v)
  return y + q if c['residual'] else y


def _feed_forward(p, y):
  n = norm(p['LayerNorm_1'], y)
  skip = dense(p['project_skip'], n) if 'project_skip' in p else y
  return mlp(p['MlpBlock_0'], n) + skip


def encoder_block(p, x, c):
  """Windows wq, wkv and strides sq, skv of the pooling; residual queries."""
  q = p['MultiScaleAttentionDownSample_0']
  y = dense(q['out'], down(q, norm(p['LayerNorm_0'], x),
                           dict(c, residual=True), 'avg'))
  # skip connections are pooled by maxima
  res = pool(x, [c['sq'] + 1], [c['sq']], 'max') if c['sq'] > 1 else x
  return _feed_forward(p, y + res)


def decoder_block(p, x, c):
  q = p['MultiScaleAttentionUpsample_0']
  y = dense(q['out'], up(q, norm(p['LayerNorm_0'], x), dict(c, residual=True)))
  return _feed_forward(p, y + np.concatenate([x] * c['reps'], axis=1))


def encoder(p, x, c):
  """Returns the output and the inputs of the pooling layers.

  c: depth, pooling layers `pools`, window `w`, strides `s` of the queries at
  pooling layers and initial strides `kv` of keys and values.
  """
  heads, kv, skips = 1, c['kv'], {}
  for i in range(c['depth']):
    pooled = i in c['pools']
    if pooled:
      heads, kv, skips[i] = 2 * heads, max(kv // 2, 1), x
    x = encoder_block(p[f'block_{i}'], x, {
        'wq': c['w'] if pooled or c['every'] else 1, 'wkv': c['w'],
        'sq': c['s'] if pooled else 1, 'skv': kv, 'heads': heads})
  return norm(p['encoder_norm'], x), skips


def decoder(p, x, skips, c):
  for i in reversed(range(c['depth'])):
    pooled = i in c['pools']
    x = decoder_block(p[f'decoder_block_{i}'], x, {
        'reps': c['s'] if pooled else 1, 'heads': x.shape[-1] // c['width']})
    if pooled and c['use_residuals']:
      x = x + skips[i]
  return norm(p['decoder_norm'], x)


def attention_heads(p, x):
  """Self attention with biases, and kernels by heads."""
  a = lambda n: np.asarray(p[n]['kernel'], np.float64)
  b = lambda n: np.asarray(p[n]['bias'], np.float64)
  q, k, v = (np.einsum('blc,chd->blhd', x, a(n)) + b(n)
             for n in ['query', 'key', 'value'])
  return np.einsum('blhd,hdc->blc', attend(q, k, v), a('out')) + b('out')


def encoder_1d(p, x):
  x = x + attention_heads(p['MultiHeadDotProductAttention_0'],
                          norm(p['LayerNorm_0'], x))
  return x + mlp(p['MlpBlock_0'], norm(p['LayerNorm_1'], x))


def layers(p, x, activation, final):
  """Dense layers Dense_0, Dense_1, ... with activations."""
  n = len(p)
  for i in range(n - 1):
    x = activation(dense(p[f'Dense_{i}'], x))
  return final(dense(p[f'Dense_{n - 1}'], x))


def dynamics(p, z, t, ctx, depth):
  """Posterior and prior drift and diffusion of the states (batch, seq, L)."""
  B, seq, L = z.shape
  token = np.full((B, 1, L), t)

  def drift(name, x):
    for i in range(depth):
      x = encoder_1d(p[f'{name}_dynamics_block_{i}'], x)
    x = norm(p[f'{name}_dynamics_norm'], x)
    return dense(p[f'{name}_decoded_patches'], x)[:, :seq]
  x = np.concatenate([z, token], axis=1)
  post = drift('posterior_drift', np.concatenate([x, ctx], axis=1))
  prior = drift('prior_drift', x)
  diff = layers(p['diffusion_mlp'], z[..., None], np.tanh, np.exp)[..., 0]
  return post, prior, diff


def integrate(f, z, steps):
  """Forward Euler over [0, 1] of the posterior drift without noise.

  f(z, t) returns the drifts and the diffusion, which weighs the KL term.
  """
  kl = np.zeros(len(z))
  axes = tuple(range(1, z.ndim))
  for i in range(steps):
    post, prior, diff = f(z, i / steps)
    small = np.abs(diff) <= 1e-8
    ratio = np.where(small, 0., (post - prior) / np.where(small, 1., diff))
    kl = kl + .5 * (ratio ** 2).sum(axis=axes) / steps
    z = z + post / steps
  return z, kl
