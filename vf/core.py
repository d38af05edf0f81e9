"""Building blocks shared by the property modules (worker side)."""

import hashlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

# Set by the worker before it imports the property module: which shard it is.
# {index, count, key, group}; None in replays.
SHARD = None


class Violation(Exception):
  """The property does not hold for the case."""


class HarnessError(Exception):
  """The check itself is broken; says nothing about the property."""


class Sub:
  """One generated check of a property.

  strategy: Hypothesis strategy drawing a JSON-able dict, the case.
  run: function of the case; raises Violation if the property fails on it.
  labels: function of the case, returning a list of class labels.
  nontrivial: function of the case; by the rule stated in `rule`.
  """

  def __init__(self, strategy, run, labels=None, nontrivial=None, rule=''):
    self.strategy = strategy
    self.run = run
    self.labels = labels or (lambda case: [])
    self.nontrivial = nontrivial or (lambda case: True)
    self.rule = rule


def case_key(case):
  return hashlib.sha1(
      json.dumps(case, sort_keys=True).encode()).hexdigest()


def derive_seed(*parts):
  h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
  return int.from_bytes(h[:6], 'big')


def in_repo(exc):
  """Whether the traceback of `exc` passes through the code under test."""
  tb = exc.__traceback__
  marker = os.path.join(REPO, 'swirl_fem') + os.sep
  while tb is not None:
    if tb.tb_frame.f_code.co_filename.startswith(marker):
      return True
    tb = tb.tb_next
  if exc.__cause__ is not None and in_repo(exc.__cause__):
    return True
  return False


# Errors of an oracle which was handed something malformed by the code under
# test (a wrong shape, dtype, key or structure). The same case is processed
# without error when the code returns what it documents.
MALFORMED = (ValueError, TypeError, IndexError, KeyError, ArithmeticError,
             AssertionError, StopIteration, AttributeError, RuntimeError)


def execute(sub, case):
  """Runs the case. Returns None, or a message describing the violation."""
  try:
    sub.run(case)
    return None
  except Violation as e:
    return str(e) or 'violation'
  except (KeyboardInterrupt, SystemExit, MemoryError, ImportError):
    raise
  except BaseException as e:  # pylint: disable=broad-except
    text = ''.join(traceback.format_exception(e))[-6000:]
    if isinstance(e, HarnessError):
      raise
    if in_repo(e):
      return ('the code under test raised an exception on a valid input: '
              f'{type(e).__name__}: {str(e)[:800]}\n{text}')
    if isinstance(e, MALFORMED) and 'RESOURCE_EXHAUSTED' not in str(e):
      return ('the output of the code under test is malformed: '
              f'{type(e).__name__}: {str(e)[:800]}\n{text}')
    raise


# ---------------------------------------------------------------------------
# Oracle helpers.
# ---------------------------------------------------------------------------


def check(cond, msg='', **info):
  if not bool(cond):
    extra = ' '.join(f'{k}={_short(v)}' for k, v in info.items())
    raise Violation(f'{msg} {extra}'.strip())


def _short(v):
  s = repr(v)
  return s if len(s) < 400 else s[:400] + '...'


def close(actual, expected, msg, rtol=1e-9, atol=None, scale=None):
  """Checks that the arrays agree up to tolerance relative to their magnitude.

  The tolerance is `rtol * max(1e-300, scale or max|expected|)` (+ atol).
  Checks the shape, and that the values are finite.
  """
  import numpy as np
  a = np.asarray(actual)
  e = np.asarray(expected)
  if a.shape != e.shape:
    raise Violation(f'{msg}: shape {a.shape}, expected {e.shape}')
  if a.size == 0:
    return
  a = a.astype(np.complex128 if np.iscomplexobj(a) else np.float64)
  e = e.astype(np.complex128 if np.iscomplexobj(e) else np.float64)
  if not np.all(np.isfinite(e)):
    raise HarnessError(f'{msg}: the reference is not finite')
  if not np.all(np.isfinite(a)):
    raise Violation(f'{msg}: not finite: {_short(a)}')
  s = float(np.max(np.abs(e))) if scale is None else float(scale)
  tol = rtol * s + (atol if atol is not None else rtol * 1e-3)
  err = np.abs(a - e)
  if float(err.max()) > tol:
    i = np.unravel_index(int(err.argmax()), err.shape)
    raise Violation(
        f'{msg}: differs by {err.max():.3e} (tolerance {tol:.3e}) at '
        f'{tuple(int(k) for k in i)}: got {a[i]!r}, expected {e[i]!r}')


def same(actual, expected, msg):
  """Checks exact equality of arrays (including the shape)."""
  import numpy as np
  a = np.asarray(actual)
  e = np.asarray(expected)
  if a.shape != e.shape:
    raise Violation(f'{msg}: shape {a.shape}, expected {e.shape}')
  if not np.array_equal(a, e):
    bad = np.argwhere(a != e)
    raise Violation(f'{msg}: differs at {bad[:3].tolist()}: got '
                    f'{_short(a[tuple(bad[0])])}, expected '
                    f'{_short(e[tuple(bad[0])])}')


def rng_of(case_or_seed):
  """numpy Generator for the content of large arrays; seeded by a drawn int."""
  import numpy as np
  seed = case_or_seed['seed'] if isinstance(case_or_seed, dict) else case_or_seed
  return np.random.Generator(np.random.PCG64(int(seed)))


def snapshot(*arrays):
  """Copies of arrays, used for checking that inputs aren't modified."""
  import numpy as np
  return [None if a is None else np.array(a, copy=True) for a in arrays]


def unchanged(arrays, copies, msg):
  import numpy as np
  for i, (a, c) in enumerate(zip(arrays, copies)):
    if c is None:
      continue
    a = np.asarray(a)
    check(a.shape == c.shape and a.dtype == c.dtype
          and np.array_equal(a, c, equal_nan=a.dtype.kind in 'fc'),
          f'{msg}: input #{i} was modified')


def scratch():
  """An empty folder: the same for every case, so that names of files recur."""
  import shutil
  import tempfile
  path = os.path.join(tempfile.gettempdir(), f'verif_scratch_{os.getpid()}')
  shutil.rmtree(path, ignore_errors=True)
  os.makedirs(path)
  return path


def log(*args):
  print(*args, file=sys.stderr, flush=True)
