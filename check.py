#!/usr/bin/env python3
"""check.py <ID>: decides one property on /repo's current source.

1. Deductive part: interprets the real source of /repo symbolically (pyvc), generates
   the obligations of the property's specs and of every contract they use, and
   discharges them with z3 (cvc5 as second back end).
2. Executable contracts: the same contracts evaluated on the real code (replay of the
   verifier's counterexamples, validation of the library models, and the labelled
   bounded stand-in for whatever part 1 could not bring within reach).
Exit 0 quiet / exit 1 VIOLATION / exit 2 the check itself is broken."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('PYVC_REPO', '/repo')
PY = '/opt/venv/bin/python'


def child(conn, mod, name, disabled, scale, unroll, end):
  signal.signal(signal.SIGINT, signal.SIG_DFL)
  sys.setrecursionlimit(20000)
  res = dict(name=name, status='undecided', reason='', obligations=0, discharged=0)
  try:
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc import spec as sp, core
    importlib.import_module('specs.contracts')
    sp.DISABLED.clear()
    sp.DISABLED.update(disabled)
    if name.startswith('contract:'):
      s = sp.CONTRACTS[name[9:]].verify
    else:
      m = importlib.import_module(mod)
      s = [x for x in m.SPECS if x.name == name][0]
    try:
      r = s.run(scale, unroll, end)
    except sp.Missing as e:
      r = dict(name=name, status='undecided', reason='function %s is not there' % e,
               obligations=0, discharged=0)
    r['failures'] = [dict(label=f.label, status=f.status, detail=str(f.detail)[:1500],
                          inputs=jsonable(f.inputs), reason=f.reason)
                     for f in r.get('failures', [])]
    r['queries'] = core.STATS.queries
    r['solver_s'] = round(core.STATS.solver_s, 3)
    res.update(r)
  except BaseException as e:   # an engine failure is never a violation
    res['reason'] = 'engine: ' + traceback.format_exc()[-1500:]
    res['engine_error'] = True
  try:
    conn.send(res)
    conn.close()
  finally:
    os._exit(0)


def jsonable(v):
  if isinstance(v, bytes):
    return v.decode('latin-1')
  if isinstance(v, dict):
    return {str(k): jsonable(x) for k, x in v.items()}
  if isinstance(v, (list, tuple)):
    return [jsonable(x) for x in v]
  if v is None or isinstance(v, (str, int, bool, float)):
    return v
  return repr(v)


def run_specs(mod, jobs, disabled, scale, hard, njobs, end, unroll=0):
  """jobs: list of spec names -> {name: result}; each in its own process.  end(): when all of
  them have to be done."""
  out = {}
  todo = list(jobs)
  live = []
  while todo or live:
    while todo and time.time() > end() - 10:
      n = todo.pop(0)
      out[n] = dict(name=n, status='undecided', reason='time budget of the check', obligations=0,
                    discharged=0, wall=0)
    while todo and len(live) < njobs:
      n = todo.pop(0)
      a, b = mp.Pipe(False)
      p = mp.Process(target=child, args=(b, mod, n, disabled, scale, unroll, end()))
      p.start()
      b.close()
      live.append((n, p, a, time.time()))
    time.sleep(0.02)
    nxt = []
    for n, p, a, t0 in live:
      if a.poll():
        try:
          out[n] = a.recv()
        except EOFError:
          out[n] = dict(name=n, status='undecided', reason='worker died', obligations=0,
                        discharged=0)
        p.join(5)
        if p.is_alive():
          p.kill()
        out[n]['wall'] = round(time.time() - t0, 2)
      elif not p.is_alive():
        out[n] = dict(name=n, status='undecided', reason='worker died (exit %s)' % p.exitcode,
                      obligations=0, discharged=0, wall=round(time.time() - t0, 2))
      elif time.time() - t0 > hard or time.time() > end():
        p.kill()
        p.join()
        out[n] = dict(name=n, status='undecided', reason='hard time limit', obligations=0,
                      discharged=0, wall=round(time.time() - t0, 2))
      else:
        nxt.append((n, p, a, t0))
    live = nxt
  return out


def concrete(pid, seed, tier, budget, extra, rundir):
  env = dict(os.environ)
  env['PYVC_REPO'] = REPO
  env['PYTHONDONTWRITEBYTECODE'] = '1'
  env['PYTHONHASHSEED'] = '0'
  env['PYTHONPATH'] = ':'.join([os.path.join(HERE, 'conc/shim'),
                                os.path.join(REPO, 'python/src'),
                                os.path.join(REPO, 'interop')])
  env.pop('PYVC_EXTRA', None)
  if extra:
    fn = os.path.join(rundir, 'extra-%s-%d.json' % (pid, os.getpid()))
    with open(fn, 'w') as f:
      json.dump(extra, f)
    env['PYVC_EXTRA'] = fn
  t0 = time.time()
  p = subprocess.Popen([PY, '-B', os.path.join(HERE, 'conc/run.py'), pid, str(seed), tier,
                        str(budget)], env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, start_new_session=True)
  try:
    o, e = p.communicate(timeout=budget + 240)
  except subprocess.TimeoutExpired:
    os.killpg(p.pid, signal.SIGKILL)
    o, e = p.communicate()
    return dict(status='timeout', evaluations=0, distinct=0, failures=[], samples=[],
                error='no result after %d s (the code under test may not terminate)' % (
                    budget + 240), wall=time.time() - t0)
  finally:
    if extra:
      os.unlink(fn)
  try:
    return json.loads(o.strip().splitlines()[-1])
  except (ValueError, IndexError):
    return dict(status='error', evaluations=0, distinct=0, failures=[], samples=[],
                error=(e or '')[-3000:] + ' rc=%s' % p.returncode, wall=time.time() - t0)


def known_findings(pid):
  out = []
  try:
    for line in open(os.path.join(HERE, 'known-findings.txt')):
      line = line.rstrip('\n')
      if line.startswith('KNOWN-FINDING: property=%s ' % pid):
        out.append(line)
  except OSError:
    pass
  return out


def main():
  pid = sys.argv[1]
  tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
  seed = int(os.environ.get('VERIF_SEED') or 1)
  t0 = time.time()
  thorough = tier == 'thorough'
  scale = 6.0 if thorough else 1.0
  njobs = min(8, os.cpu_count() or 1)
  evdir = os.path.join(HERE, 'evidence')
  os.makedirs(evdir, exist_ok=True)
  from pyvc import lib
  importlib.import_module('specs.contracts')
  from pyvc import spec as sp
  modname = 'specs.' + pid.lower()
  try:
    mod = importlib.import_module(modname)
    specs = [s for s in mod.SPECS if s.tier == 'quick' or thorough]
  except ModuleNotFoundError as e:
    if e.name != modname:
      raise
    mod, specs = None, []
  byname = {s.name: s for s in specs}

  # executable contracts run beside the proofs; replay comes after
  import threading
  cres = {}

  def conc():
    cres['r'] = concrete(pid, seed, tier, 900 if thorough else 60, [], evdir)
  th = threading.Thread(target=conc)
  th.start()

  hard = 420 if not thorough else 3600

  def end():
    """Proofs stop here; with a failing input in hand the obligations need not all be seen."""
    if cres.get('r', {}).get('status') == 'fail':
      return t0 + (240 if not thorough else 3600)
    return t0 + (560 if not thorough else 10000)
  order = sorted(byname, key=lambda n: -byname[n].deadline)
  results = run_specs(modname, order, (), scale, hard, njobs, end)
  # contracts the specs relied on, transitively
  creps = {}
  need = set()

  def used_of(rs):
    u = set()
    for r in rs.values():
      u.update(x for x in r.get('used', ()) if x in sp.CONTRACTS)
    return u
  frontier = used_of(results)
  while frontier:
    need |= frontier
    rs = run_specs(modname, ['contract:' + q for q in sorted(frontier)], (), scale, hard, njobs, end)
    creps.update(rs)
    frontier = used_of(rs) - need
  # a contract that fails behind a loop invariant: look at it with the loops unrolled
  weak = sorted(n for n, r in creps.items() if r['status'] == 'weak')
  if weak:
    rr = run_specs(modname, weak, (), scale, hard, njobs, end, 3)
    for n in weak:
      if rr[n]['status'] == 'refuted':
        creps[n]['status'] = 'refuted'
  # a contract that does not verify is not believed by its callers: inline it there
  bad = {q for q in need if creps['contract:' + q]['status'] != 'ok'}
  rerun = []
  if bad:
    grew = True
    while grew:      # contracts verified through a bad one are suspect as well
      grew = False
      for q in sorted(need - bad):
        if set(creps['contract:' + q].get('used', ())) & bad:
          bad.add(q)
          grew = True

    def closure(qs):
      out, todo = set(), [q for q in qs if q in need]
      while todo:
        q = todo.pop()
        if q not in out:
          out.add(q)
          todo += [x for x in creps['contract:' + q].get('used', ()) if x in need]
      return out
    rerun = [n for n, r in results.items() if set(r.get('used', ())) & bad]
    rr = run_specs(modname, rerun, tuple(sorted(bad)), scale, hard, njobs, end)
    for n in rerun:
      rr[n]['inlined_contracts'] = sorted(bad)
      rr[n]['used0'] = closure(results[n].get('used', ()))
      results[n] = rr[n]
  # an obligation that fails behind a loop replaced by its invariant is not yet a
  # counterexample (the invariant may not fit the loop as it is now written): decide
  # it with the loops unrolled exactly, up to a bound
  weak = [n for n, r in results.items() if r['status'] == 'weak']
  if weak:
    rr = run_specs(modname, weak, tuple(sorted(bad)), scale, hard, njobs, end, 3)
    for n in weak:
      if rr[n]['status'] == 'refuted':
        rr[n]['unrolled'] = 3
        rr[n]['used0'] = results[n].get('used0', set())
        results[n] = rr[n]
      else:
        results[n]['status'] = 'undecided'
        results[n]['reason'] = ('loop invariant does not carry the obligation (%s); with loops '
                                'unrolled 3 times: %s' % (results[n]['reason'][:200], rr[n]['status']))
  # a counterexample found only with an unverified (not refuted) contract inlined compares the
  # body with specification functions it was not related to: not yet a counterexample
  doubted = {q for q in bad if creps['contract:' + q]['status'] not in ('ok', 'refuted')}
  for n in rerun:
    r = results[n]
    why = r.pop('used0', set()) & doubted
    if r['status'] == 'refuted' and why:
      r['status'] = 'undecided'
      r['reason'] = ('contract of %s not decided; with its body in place the verifier finds no '
                     'proof (%s)' % (', '.join(sorted(why)), r['reason'][:200]))
  th.join()
  c = cres['r']

  refuted = [r for r in results.values() if r['status'] == 'refuted']
  extra = []

  def leaves(v):
    if isinstance(v, dict):
      v = list(v.values())
    if isinstance(v, (list, tuple)):
      for x in v:
        leaves(x)
    elif isinstance(v, (str, int)) and not isinstance(v, bool) and v not in extra:
      extra.append(v)
  for r in list(results.values()) + list(creps.values()):
    for f in r.get('failures', []):
      leaves(f['inputs'])
  if extra and c['status'] == 'ok':
    # replay the solver's counterexamples against the real code
    c2 = concrete(pid, seed + 1000, tier, 60, extra, evdir)
    c2['evaluations'] += c['evaluations']
    if c2['status'] != 'ok':
      c = c2

  cfail = c['status'] == 'fail'
  violation = cfail or bool(refuted)

  allres = list(results.values()) + [r for q, r in sorted(creps.items()) if q[9:] not in bad]
  proved = [r for r in allres if r['status'] == 'ok']
  open_ = [r for r in allres if r['status'] in ('unknown', 'undecided')]
  back = {}
  for r in proved:
    for k, v in r.get('backend', {}).items():
      back[k] = back.get(k, 0) + v
  funcs = sorted({f for s in specs for f in s.functions} | need)
  inl = sorted({x for r in proved for x in r.get('inlined', ())})
  bounded = []
  for s in specs:
    if s.bounded:
      bounded.append('%s: %s' % (s.name, s.bounded))
  for r in open_:
    bounded.append('%s: not decided by the verifier on this tree (%s); the executable '
                   'contract on the inputs of this run stands in (bounded, not proved)'
                   % (r['name'], r['reason'][:300]))
  ob = sum(r['obligations'] for r in allres)
  di = sum(r['discharged'] for r in proved)
  nb = {s.name for s in specs if s.bounded}
  ev = dict(
      property=pid, tier='thorough' if thorough else 'quick', seed=seed, level='proof',
      coverage=dict(
          obligations=ob, discharged=di,
          checker_cmd='python3-vt check.py %s' % pid,
          trusted_base=['pyvc (AST interpreter and VC generator, /verif/pyvc)', 'z3',
                        'cvc5'] + lib.MODEL_ASSUMPTIONS,
          functions_under_contract=funcs,
          functions_interpreted_in_place=inl,
          contracts_used={q: creps['contract:' + q]['status'] for q in sorted(need)},
          specs=[dict(name=r['name'], status=r['status'], reason=r.get('reason', '')[:300],
                      obligations=r['obligations'], discharged=r['discharged'],
                      paths=r.get('paths', 0), loop_invariants=r.get('invariants', {}),
                      labels=r.get('labels', {}),
                      wall_s=round(r.get('wall', 0), 2),
                      bounded=(byname[r['name']].bounded if r['name'] in byname else None))
                 for r in allres],
          obligations_proved_without_bound=sum(
              r['discharged'] for r in proved if r['name'] not in nb),
          obligations_proved_within_stated_bound=sum(
              r['discharged'] for r in proved if r['name'] in nb),
          backend=back,
          solver_queries=sum(r.get('queries', 0) for r in allres),
          solver_s=round(sum(r.get('solver_s', 0) for r in allres), 2),
          bounded_parts=bounded,
          executable_contracts=dict(
              status=c['status'], evaluations=c['evaluations'], distinct=c['distinct'],
              samples=c.get('samples', [])[:5], wall_s=round(c.get('wall', 0), 2),
              role='replay, validation of library models, bounded stand-in for open specs'),
      ),
      assumptions=lib.MODEL_ASSUMPTIONS,
      wall_s=round(time.time() - t0, 2),
      violations=int(violation))
  with open(os.path.join(evdir, pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)

  if c['status'] in ('error', 'timeout') and not violation:
    print('check error: executable contracts did not run: %s' % c.get('error'))
    sys.exit(2)
  for line in known_findings(pid):
    print(line)
  for r in allres:
    print('%-10s %-46s obligations %4d discharged %4d  %6.1fs %s' % (
        r['status'], r['name'], r['obligations'], r['discharged'], r.get('wall', 0),
        r.get('reason', '')[:160].replace('\n', ' ')))
  print('executable contracts: %s, %d evaluations (%d distinct), %.1fs' % (
      c['status'], c['evaluations'], c['distinct'], c.get('wall', 0)))
  if violation:
    rp = os.path.join(evdir, 'replay-%s.json' % pid)
    with open(rp, 'w') as f:
      json.dump(dict(
          property=pid, seed=seed, tier=tier,
          how='PYVC_REPO=%s PYTHONPATH=%s/conc/shim:%s/python/src:%s/interop %s -B '
              '%s/conc/run.py %s %d %s' % (REPO, HERE, REPO, REPO, PY, HERE, pid, seed, tier),
          failing_inputs=c['failures'][:20],
          failed_obligations=[dict(spec=r['name'], status=r['status'], reason=r['reason'],
                                   failures=r.get('failures', [])) for r in refuted]),
          f, indent=1, default=repr)
    for r in refuted:
      print('failed obligation: %s: %s' % (r['name'], r['reason'][:500]))
    for f in c['failures'][:3]:
      print('failing input: %s' % json.dumps(f, default=repr)[:600])
    print('VIOLATION property=%s replay=%s%s' % (
        pid, rp, '' if cfail else ' no-failing-input-found'))
    sys.exit(1)
  print('property %s holds on everything explored' % pid)
  sys.exit(0)


if __name__ == '__main__':
  main()
