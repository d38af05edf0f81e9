"""Decides one property: runs its shards in parallel and writes the evidence.

usage: run.py PID [--tier quick|thorough] [--seed N] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1: it is violated, with
a line `VIOLATION property=<id> replay=<path>`. Exit 2: error of the check.
"""

import argparse
import ast
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
# A single case which takes longer than this is hanging: STALL_S if it computed
# most of the time or was idle, up to SLOW_S if it had to wait for a processor.
STALL_S = 240
SLOW_S = 420
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def module_header(module):
  """Reads TITLE, RULE and PLAN of a property module without importing it."""
  with open(os.path.join(VERIF, 'checks', module + '.py')) as f:
    tree = ast.parse(f.read())
  header = {}
  for node in tree.body:
    if (isinstance(node, ast.Assign) and len(node.targets) == 1
        and isinstance(node.targets[0], ast.Name)
        and node.targets[0].id in ('RULE', 'PLAN', 'ASSUMPTIONS')):
      header[node.targets[0].id] = ast.literal_eval(node.value)
  return header


def find_module(pid):
  for f in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
    if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
      return f[:-3]
  raise SystemExit(f'no module for {pid}')


def child_env(env):
  e = {k: v for k, v in os.environ.items()
       if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR', 'VERIF_REPO')}
  # constant folding of XLA miscompiles some gradients with closed-over arrays
  flags = ['--xla_cpu_multi_thread_eigen=false',
           '--xla_disable_hlo_passes=constant_folding']
  if env.get('devices', 1) > 1:
    flags.append(f"--xla_force_host_platform_device_count={env['devices']}")
  if env.get('fast_compile', True):
    flags += ['--xla_backend_optimization_level=0',
              '--xla_llvm_disable_expensive_passes=true']
  e.update({
      'PYTHONPATH': REPO, 'PYTHONDONTWRITEBYTECODE': '1',
      'PYTHONHASHSEED': '0', 'JAX_PLATFORMS': 'cpu',
      'CUDA_VISIBLE_DEVICES': '', 'TF_CPP_MIN_LOG_LEVEL': '3',
      'TFDS_DATA_DIR': '/nonexistent', 'NO_GCE_CHECK': 'true',
      'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
      'MKL_NUM_THREADS': '1', 'XLA_FLAGS': ' '.join(flags),
  })
  return e


class Job:

  def __init__(self, spec, scratch, idx):
    self.spec = spec
    self.dir = os.path.join(scratch, f'job{idx}')
    os.makedirs(self.dir)
    spec['out'] = os.path.join(self.dir, 'out.json')
    spec['heartbeat'] = os.path.join(self.dir, 'heartbeat.json')
    self.path = os.path.join(self.dir, 'job.json')
    self.proc = None
    self.start = None
    self.beat = None
    self.beat_cpu = 0.

  def launch(self):
    with open(self.path, 'w') as f:
      json.dump(self.spec, f)
    self.start = time.monotonic()
    self.start_wall = time.time()
    self.err = open(os.path.join(self.dir, 'stderr'), 'wb')
    env = child_env(self.spec['env'])
    env['TMPDIR'] = self.dir
    self.proc = subprocess.Popen(
        [PY, os.path.join(HERE, 'worker.py'), self.path], cwd=self.dir,
        env=env, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
        start_new_session=True)

  def last_beat(self):
    try:
      return max(self.start_wall, os.stat(self.spec['heartbeat']).st_mtime)
    except OSError:
      return self.start_wall

  def cpu_s(self):
    """The processor time which the process has used so far."""
    try:
      with open(f'/proc/{self.proc.pid}/stat') as f:
        fields = f.read().rsplit(')', 1)[1].split()
      return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
      return 0.

  def stalled(self):
    beat = self.last_beat()
    if beat != self.beat:
      self.beat, self.beat_cpu = beat, self.cpu_s()
    waited = time.time() - beat
    if waited <= STALL_S or waited > SLOW_S:
      return waited > SLOW_S
    used = self.cpu_s() - self.beat_cpu
    return used < 5 or used > .8 * STALL_S

  def kill(self):
    try:
      os.killpg(self.proc.pid, signal.SIGKILL)
    except OSError:
      pass
    self.proc.wait()

  def result(self):
    try:
      with open(self.spec['out']) as f:
        return json.load(f)
    except OSError:
      return None

  def stderr_tail(self):
    try:
      with open(os.path.join(self.dir, 'stderr'), 'rb') as f:
        return f.read()[-3000:].decode(errors='replace')
    except OSError:
      return ''


def run_jobs(jobs, limit_s):
  """Runs the jobs; returns (done, hung) lists."""
  pending, running, done, hung = list(jobs), [], [], []
  failed = False
  t0 = time.monotonic()
  while pending or running:
    if failed:
      # One violation decides the property; what's not started isn't needed.
      pending = []
    while pending and len(running) < JOBS:
      j = pending.pop(0)
      j.launch()
      running.append(j)
    time.sleep(0.1)
    for j in list(running):
      if j.proc.poll() is not None:
        running.remove(j)
        done.append(j)
        r = j.result()
        if r is not None and r['failures']:
          failed = True
      elif j.stalled():
        j.kill()
        running.remove(j)
        hung.append(j)
      elif time.monotonic() - t0 > limit_s:
        j.kill()
        running.remove(j)
        done.append(j)
        j.timed_out = True
    if failed:
      for j in list(running):
        # The others get a little time to find smaller evidence, then stop.
        j.kill()
        running.remove(j)
  return done, hung


def confirm(pid, module, env, rep, scratch, idx, tier, seed, limit=None):
  """Replays in a fresh process. Returns True/False, or 'hang' or None."""
  path = os.path.join(scratch, f'rep{idx}.json')
  with open(path, 'w') as f:
    json.dump(rep, f)
  job = Job({'pid': pid, 'module': module, 'replay': path, 'env': env,
             'seed': seed, 'tier': tier, 'budget_s': 600}, scratch,
            f'rep{idx}')
  job.launch()
  while True:
    try:
      job.proc.wait(timeout=.2)
      break
    except subprocess.TimeoutExpired:
      if (job.stalled() if limit is None
          else time.monotonic() - job.start > limit):
        job.kill()
        return 'hang', None
  r = job.result()
  if r is None and job.proc.returncode == -signal.SIGKILL:
    return None, 'killed (out of memory?)'
  if r is None:
    return 'died', f'exit code {job.proc.returncode}: {job.stderr_tail()}'
  if r['error']:
    return None, r['error']
  return bool(r['failures']), (r['failures'][0]['message']
                               if r['failures'] else None)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int,
                  default=int(os.environ.get('VERIF_SEED', '1')))
  ap.add_argument('--replay')
  ap.add_argument('--only', help='run only this sub-check (development)')
  args = ap.parse_args()
  t0 = time.monotonic()
  pid, tier, seed = args.pid, args.tier, args.seed
  module = find_module(pid)
  header = module_header(module)
  scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
  try:
    return decide(args, pid, tier, seed, module, header, scratch, t0)
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def load_known(pid):
  path = os.path.join(VERIF, 'known_findings.json')
  with open(path) as f:
    known = json.load(f)
  return [k for k in known.get('findings', []) if k['property'] == pid]


def save_replay(pid, rep):
  d = os.path.join(VERIF, 'replays', pid)
  os.makedirs(d, exist_ok=True)
  path = os.path.join(d, f"{rep['sub']}-{time.time_ns()}.json")
  with open(path, 'w') as f:
    json.dump(rep, f, indent=1)
  return path


def decide(args, pid, tier, seed, module, header, scratch, t0):
  if args.replay:
    with open(args.replay) as f:
      rep = json.load(f)
    ok, msg = confirm(pid, module, rep['env'], rep, scratch, 0, tier, seed)
    if ok is None:
      print(f'ERROR: {msg}')
      return 2
    if ok:
      print(msg)
      print(f'VIOLATION property={pid} replay={args.replay}')
      return 1
    print('the case passes')
    return 0

  thorough = tier == 'thorough'
  budget = 2400 if thorough else 150
  limit = 5400 if thorough else 600
  jobs, idx = [], 0
  for entry in header['PLAN']:
    shards = entry.get('shards', (1, 2))[thorough]
    subs = {k: v[thorough] for k, v in entry['subs'].items() if v[thorough]}
    if args.only:
      subs = {k: v for k, v in subs.items() if k == args.only}
    if not subs:
      continue
    for shard in range(shards):
      from_seed = f'{seed}/{pid}/{",".join(sorted(entry["subs"]))}/{entry.get("tag", "")}/{shard}'
      jobs.append(Job({
          'pid': pid, 'module': module, 'subs': subs,
          'env': entry.get('env', {}), 'seed': from_seed, 'tier': tier,
          'shard': {'index': shard, 'count': shards, 'key': from_seed,
                    'group': f'{seed}/{pid}/{entry.get("tag", "")}'},
          'budget_s': budget, 'shrink_s': 300 if thorough else 60,
      }, scratch, idx))
      idx += 1

  known = load_known(pid)
  done, hung = run_jobs(jobs, limit)

  totals = {'evaluations': 0, 'nontrivial': 0, 'skipped': 0}
  subs, samples, failures, errors = {}, [], [], []
  died = []
  keys = set()  # distinct non-trivial cases over all the shards
  for j in done:
    r = j.result()
    if r is None:
      if getattr(j, 'timed_out', False):
        errors.append('shard ran out of time')
      elif j.proc.returncode and j.proc.returncode < 0 and any(
          (k.result() or {}).get('failures') for k in done):
        pass
      else:
        died.append(j)
      continue
    if r['error']:
      errors.append(r['error'])
    for name, s in r['subs'].items():
      t = subs.setdefault(name, {
          'evaluations': 0, 'nontrivial': 0, 'skipped_time': 0, 'labels': {},
          'rule': s['rule'], 'wall_s': 0.})
      for k in ('evaluations', 'nontrivial', 'skipped_time', 'wall_s'):
        t[k] = round(t[k] + s[k], 2)
      for l, c in s['labels'].items():
        t['labels'][l] = t['labels'].get(l, 0) + c
      keys.update(f'{name}/{k}' for k in s['keys'])
      totals['evaluations'] += s['evaluations']
      totals['nontrivial'] += s['nontrivial']
      totals['skipped'] += s['skipped_time']
    samples += r['samples']
    for f in r['failures']:
      failures.append((j, f))

  violations = []
  for n, j in enumerate(hung):
    with open(j.spec['heartbeat']) as f:
      beat = json.load(f)
    rep = {'property': pid, 'sub': beat['sub'], 'case': beat['case'],
           'env': j.spec['env'], 'message': 'does not terminate'}
    ok, msg = confirm(pid, module, j.spec['env'], rep, scratch, f'h{n}', tier,
                      seed)
    if ok == 'hang':
      violations.append((rep, f'no result after {STALL_S} s, twice'))
    elif ok:
      violations.append((rep, msg))
    elif ok is None:
      errors.append(f'a shard stalled: {beat["sub"]}: {msg}')
    else:   # slow, but it does terminate
      totals['skipped'] += 1
      print(f'  note: a shard was stopped in a slow case of {beat["sub"]}, '
            'which terminates when it is run alone')
    if violations:
      break

  for n, j in enumerate(died):
    # The process ended abnormally (abort, segmentation fault) inside a case.
    try:
      with open(j.spec['heartbeat']) as f:
        beat = json.load(f)
    except OSError:
      errors.append(f'shard died ({j.proc.returncode}): {j.stderr_tail()}')
      continue
    rep = {'property': pid, 'sub': beat['sub'], 'case': beat['case'],
           'env': j.spec['env'], 'message': 'the process dies'}
    ok, msg = confirm(pid, module, j.spec['env'], rep, scratch, f'd{n}', tier,
                      seed)
    if ok == 'died':
      violations.append((rep, f'the process dies, twice: {msg}'))
    elif ok in (True, 'hang'):
      violations.append((rep, msg or 'hangs'))
    else:
      errors.append(f'shard died ({j.proc.returncode}), not reproduced: '
                    f'{j.stderr_tail()}')

  for n, (j, f) in enumerate(failures[:4]):
    rep = {'property': pid, 'sub': f['sub'], 'case': f['case'],
           'env': j.spec['env'], 'message': f['message'], 'seed': seed,
           'tier': tier}
    ok, msg = confirm(pid, module, j.spec['env'], rep, scratch, f'c{n}', tier,
                      seed)
    if ok is None:
      errors.append(msg)
      continue
    if not ok:
      # Depends on what ran before it: replay the history of the shard.
      rep['case'] = f['first']
      rep['history'] = f['history']
      ok, msg = confirm(pid, module, j.spec['env'], rep, scratch, f's{n}',
                        tier, seed, limit=400)
      if ok is None:
        errors.append(msg)
        continue
      rep['note'] = ('fails only after the recorded history' if ok else
                     'observed once; not reproduced in a fresh process')
    violations.append((rep, f['message']))
    break

  known_hit = []
  if known and not violations:
    # Each listed finding is replayed; it's reported for as long as it fails.
    for n, k in enumerate(known):
      rep = {'sub': k['sub'], 'case': k['case'], 'env': k.get('env', {})}
      ok, msg = confirm(pid, module, rep['env'], rep, scratch, f'k{n}', tier,
                        seed)
      if ok is None:
        errors.append(msg)
      elif ok:
        known_hit.append(k)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

  evidence = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': totals['evaluations'],
          'distinct_nontrivial': len(keys),
          'rule': header.get('RULE', ''),
          'samples': [_trim(s) for s in samples[:12]],
          'sub_checks': subs,
          'skipped_for_time': totals['skipped'],
          'shards': len(jobs),
          'known_findings_reproduced': [k['id'] for k in known_hit],
      },
      'assumptions': header.get('ASSUMPTIONS', []),
      'wall_s': round(time.monotonic() - t0, 2),
      'violations': len(violations),
  }
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
    json.dump(evidence, f, indent=1)
    f.write('\n')

  print(f"{pid}: {totals['evaluations']} cases "
        f"({totals['nontrivial']} non-trivial, {totals['skipped']} skipped for"
        f" time) in {time.monotonic() - t0:.1f} s, {len(jobs)} shards")
  if violations:
    for rep, msg in violations:
      print(f"  sub-check {rep['sub']}: {str(msg)[:3000]}")
      print(f"  case: {json.dumps(rep['case'])[:2000]}")
      path = save_replay(pid, rep)
      print(f'VIOLATION property={pid} replay={path}')
    return 1
  if errors:
    for e in errors:
      print('ERROR:', e)
    return 2
  if totals['evaluations'] == 0:
    print('ERROR: no cases were generated')
    return 2
  return 0


def _trim(s):
  text = json.dumps(s)
  return s if len(text) < 3000 else text[:3000] + '...'


if __name__ == '__main__':
  sys.exit(main())
