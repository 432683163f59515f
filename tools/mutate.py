#!/usr/bin/env python3
"""Self-assessment: mutate functions of /repo in scratch copies, run the checks whose evidence
names the function, list the survivors.  Not part of any check.

usage: mutate.py OUT.jsonl [--per N] [--seed S] [--jobs J] [--only REGEX]
Run from a copy of /verif (it rewrites evidence/)."""
import argparse, ast, copy, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {m: 'python/src/keyczar/%s.py' % m for m in
         'keyczar keys util keydata keyinfo readers writers keyczart errors'.split()}
FILES['interop'] = 'interop/interop.py'


def functions(tree):
  out = []

  def rec(node, pre):
    for c in ast.iter_child_nodes(node):
      if isinstance(c, ast.ClassDef):
        rec(c, pre + [c.name])
      elif isinstance(c, (ast.FunctionDef,)):
        n = c.name
        if pre and n.startswith('__') and not n.endswith('__'):
          n = '_' + pre[-1].lstrip('_') + n
        out.append(('.'.join(pre + [n]), c))
        rec(c, pre)
      else:
        rec(c, pre)
  rec(tree, [])
  return out


SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq,
        ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(fn):
  """[(description, mutator(node-in-copy))] as (path index, kind)"""
  out = []
  nodes = list(ast.walk(fn))
  doc = ast.get_docstring(fn, clean=False)
  for i, n in enumerate(nodes):
    if isinstance(n, ast.Compare):
      out.append((i, 'cmp'))
      if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        out.append((i, 'cmpneg'))
    elif isinstance(n, ast.BoolOp):
      out.append((i, 'boolop'))
      out.append((i, 'dropterm'))
    elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
      out.append((i, 'binop'))
    elif isinstance(n, ast.Constant):
      if isinstance(n.value, bool):
        out.append((i, 'bool'))
      elif isinstance(n.value, int):
        out.append((i, 'inc'))
        out.append((i, 'dec'))
      elif isinstance(n.value, str) and n.value != doc and n.value:
        out.append((i, 'str'))
    elif isinstance(n, ast.If):
      out.append((i, 'negif'))
      out.append((i, 'dropif'))
    elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise)):
      if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
        out.append((i, 'drop'))
    elif isinstance(n, ast.Call) and len(n.args) >= 2:
      out.append((i, 'swapargs'))
    elif isinstance(n, ast.Return) and n.value is not None:
      out.append((i, 'retnone'))
    elif isinstance(n, ast.Slice):
      out.append((i, 'slice'))
    elif isinstance(n, ast.Break):
      out.append((i, 'brk'))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      out.append((i, 'not'))
  return out


def apply(fn, i, kind):
  n = list(ast.walk(fn))[i]
  if kind == 'cmp':
    n.ops[0] = SWAP[type(n.ops[0])]()
  elif kind == 'cmpneg':
    n.ops[0] = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[type(n.ops[0])]()
  elif kind == 'boolop':
    n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
  elif kind == 'dropterm':
    n.values = n.values[:-1] if len(n.values) > 2 else [n.values[0], n.values[0]]
  elif kind == 'binop':
    n.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult,
            ast.Mod: ast.FloorDiv}[type(n.op)]()
  elif kind == 'bool':
    n.value = not n.value
  elif kind == 'inc':
    n.value += 1
  elif kind == 'dec':
    n.value -= 1
  elif kind == 'str':
    n.value = n.value[:-1] + ('X' if n.value[-1] != 'X' else 'Y')
  elif kind == 'negif':
    n.test = ast.UnaryOp(ast.Not(), n.test)
  elif kind == 'dropif':
    n.test = ast.Constant(False)
  elif kind == 'drop':
    for p in ast.walk(fn):
      for f in ('body', 'orelse', 'finalbody'):
        b = getattr(p, f, None)
        if isinstance(b, list) and n in b:
          b[b.index(n)] = ast.Pass()
          return
    raise ValueError
  elif kind == 'swapargs':
    n.args[0], n.args[1] = n.args[1], n.args[0]
  elif kind == 'retnone':
    n.value = ast.Constant(None)
  elif kind == 'slice':
    if n.lower is not None and n.upper is not None:
      n.upper = None
    elif n.lower is not None:
      n.lower = ast.BinOp(n.lower, ast.Add(), ast.Constant(1))
    elif n.upper is not None:
      n.upper = ast.BinOp(n.upper, ast.Sub(), ast.Constant(1))
    else:
      raise ValueError
  elif kind == 'brk':
    for p in ast.walk(fn):
      for f in ('body', 'orelse', 'finalbody'):
        b = getattr(p, f, None)
        if isinstance(b, list) and n in b:
          b[b.index(n)] = ast.Continue()
          return
  elif kind == 'not':
    n.op = ast.UAdd()
    raise ValueError
  else:
    raise ValueError(kind)


def covering():
  cov, cost, direct = {}, {}, {}
  for f in sorted(os.listdir(os.path.join(HERE, 'evidence'))):
    d = json.load(open(os.path.join(HERE, 'evidence', f)))
    if 'coverage' not in d:
      continue
    p = d['property']
    cost[p] = d.get('wall_s') or d.get('coverage', {}).get('wall_s') or 1
    c = d['coverage']
    direct[p] = set(c.get('functions_under_contract', []))
    for q in set(c.get('functions_under_contract', [])) | set(c.get('functions_interpreted_in_place', [])):
      cov.setdefault(q, set()).add(p)
  # slow checks only for what they are about
  for q in cov:
    cov[q] = {p for p in cov[q] if cost[p] < 60 or q in direct[p]} or cov[q]
  return cov, cost


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('out')
  ap.add_argument('--per', type=int, default=3)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--jobs', type=int, default=4)
  ap.add_argument('--only', default='')
  ap.add_argument('--all-checks', action='store_true')
  a = ap.parse_args()
  rng = random.Random(a.seed)
  cov, cost = covering()
  work = []
  for m, f in FILES.items():
    src = open('/repo/' + f).read()
    base = ast.unparse(ast.parse(src))
    for q, fn in functions(ast.parse(src)):
      qn = m + '.' + q
      if a.only and not re.search(a.only, qn):
        continue
      ss = sites(fn)
      rng.shuffle(ss)
      n = 0
      for i, kind in ss:
        if n >= a.per:
          break
        t = ast.parse(src)
        g = [x for y, x in functions(t) if y == q and x.lineno == fn.lineno][0]
        try:
          node = list(ast.walk(g))[i]
          line = getattr(node, 'lineno', g.lineno)
          apply(g, i, kind)
          ast.fix_missing_locations(t)
          new = ast.unparse(t)
          compile(new, f, 'exec')
        except (ValueError, SyntaxError):
          continue
        if new == base:
          continue
        n += 1
        work.append((qn, f, line, kind, new, base))
  print(len(work), 'mutants', flush=True)
  out = open(a.out, 'a')

  def one(w):
    qn, f, line, kind, new, base = w
    ps = sorted(cov.get(qn, ()), key=lambda p: cost[p])
    d = tempfile.mkdtemp(prefix='mut')
    try:
      shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git', 'java', 'cpp', 'go'))
      open(os.path.join(d, 'r', f), 'w').write(new)
      diff = [l for l in __import__('difflib').unified_diff(base.split('\n'), new.split('\n'), lineterm='', n=0)][3:]
      rec = dict(fn=qn, line=line, kind=kind, diff=diff, checks=ps)
      env = dict(os.environ, PYVC_REPO=d + '/r', VERIF_SEED='1', VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1')
      if f == 'interop/interop.py':
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'interop_unit_test.py'], cwd=d + '/r/interop',
                           env=dict(env, PYTHONPATH=d + '/r/python/src'), capture_output=True, text=True)
        rec['tests'] = r.returncode
        if r.returncode:
          rec['verdict'] = 'tests'
          return rec
      rec['verdict'] = 'survived' if ps else 'uncovered'
      t0 = time.time()
      for p in ps:
        r = subprocess.run(['python3-vt', 'check.py', p], cwd=HERE, env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        if r.returncode == 1 and v:
          rec['verdict'] = 'caught ' + p + (' nofail' if 'no-failing' in v[0] else '')
          break
        if r.returncode not in (0, 1):
          rec['odd'] = (p, r.returncode, r.stderr[-300:])
      rec['s'] = round(time.time() - t0)
      return rec
    finally:
      shutil.rmtree(d, ignore_errors=True)
  with ThreadPoolExecutor(a.jobs) as ex:
    for f in as_completed([ex.submit(one, w) for w in work]):
      rec = f.result()
      out.write(json.dumps(rec) + '\n')
      out.flush()


main()
