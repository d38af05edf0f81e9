"""Runs one shard of one property's generated checks, in its own process.

usage: worker.py JOB.json
The job: {pid, module, subs: {name: n}, env, seed, tier, budget_s, out,
heartbeat} or {pid, module, replay: FILE, out}.
"""

import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'vendor'))
sys.path.insert(0, os.path.dirname(HERE))


def setup_jax(env):
  import jax
  jax.config.update('jax_enable_x64', bool(env.get('x64', True)))
  # Every shape which Hypothesis draws is compiled once; keep it in memory only.
  jax.config.update('jax_compilation_cache_dir', None)


def main():
  with open(sys.argv[1]) as f:
    job = json.load(f)
  out = {'cases': 0, 'nontrivial': 0, 'labels': {}, 'samples': [],
         'failures': [], 'skipped': 0, 'error': None, 'subs': {}}
  try:
    if job['env'].get('jax', True):
      setup_jax(job['env'])
    from vf import core
    core.SHARD = job.get('shard')
    module = importlib.import_module('checks.' + job['module'])
    if 'replay' in job:
      replay(job, module, out)
    else:
      run(job, module, out)
  except BaseException:  # pylint: disable=broad-except
    out['error'] = traceback.format_exc()[-6000:]
  tmp = job['out'] + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(out, f)
  os.replace(tmp, job['out'])
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(0)


def replay(job, module, out):
  """Executes the case(s) of a replay file; the last one is the failing one."""
  from vf import core
  with open(job['replay']) as f:
    rep = json.load(f)
  sub = module.SUBS[rep['sub']]
  seq = rep.get('history', []) + [rep['case']]
  msg = None
  for case in seq:
    msg = core.execute(sub, case)
    out['cases'] += 1
    if msg is not None:
      out['failures'].append({'sub': rep['sub'], 'case': case, 'message': msg})
  out['last_fails'] = msg is not None
  out['message'] = msg


def run(job, module, out):
  import hypothesis
  from hypothesis import HealthCheck, Phase, given, settings
  from vf import core
  from vf.core import Violation

  t_start = time.monotonic()
  deadline = t_start + job['budget_s']

  for name, n in job['subs'].items():
    sub = module.SUBS[name]
    results = {}      # case key -> message or None
    history = []      # all the executed cases in order
    state = {'fail_time': None, 'first_fail': None, 'last_fail': None}
    stats = out['subs'].setdefault(
        name, {'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'labels': {},
               'skipped_time': 0, 'rule': sub.rule, 'wall_s': 0., 'keys': []})
    sub_start = time.monotonic()
    samples = []

    # Hypothesis starts with the simplest case, which one shard tries.
    skip_simplest = [n <= 2 or (core.SHARD or {}).get('index', 0) > 0]

    def body(case):
      if skip_simplest.pop() if skip_simplest else False:
        hypothesis.reject()
      case = json.loads(json.dumps(case))
      key = core.case_key(case)
      if key in results:
        msg = results[key]
        if msg is not None:
          state['last_fail'] = case
          raise Violation(msg)
        return
      now = time.monotonic()
      if state['fail_time'] is not None:
        # Bounds the time spent on shrinking.
        if now - state['fail_time'] > job.get('shrink_s', 60):
          return
      elif now > deadline:
        stats['skipped_time'] += 1
        return
      with open(job['heartbeat'], 'w') as f:
        json.dump({'sub': name, 'case': case, 'time': time.time()}, f)
      msg = core.execute(sub, case)
      results[key] = msg
      if state['fail_time'] is None:
        history.append(case)
        stats['evaluations'] += 1
        stats['distinct'] += 1
        nt = bool(sub.nontrivial(case))
        stats['nontrivial'] += nt
        if nt:
          stats['keys'].append(key[:16])
        for l in sub.labels(case):
          stats['labels'][str(l)] = stats['labels'].get(str(l), 0) + 1
        if nt and (len(samples) < 2 or stats['evaluations'] in (50, 200)):
          samples.append({'sub': name, 'case': case})
      if msg is not None:
        if state['fail_time'] is None:
          state['fail_time'] = time.monotonic()
          state['first_fail'] = case
        state['last_fail'] = case
        raise Violation(msg)

    test = given(sub.strategy)(body)
    test = hypothesis.seed(core.derive_seed(job['seed'], name))(test)
    test = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck))(test)
    try:
      test()
    except Violation:
      pass
    except hypothesis.errors.Flaky:
      if state['first_fail'] is None:
        raise
    finally:
      stats['wall_s'] = round(time.monotonic() - sub_start, 2)
    out['samples'] += samples[:4]
    if state['first_fail'] is not None:
      # Hypothesis executes the smallest failing case last.
      minimal = state['last_fail']
      out['failures'].append({
          'sub': name, 'case': minimal, 'first': state['first_fail'],
          'history': history[:-1],
          'message': results[core.case_key(minimal)]})
      return


if __name__ == '__main__':
  main()
