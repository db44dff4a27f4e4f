"""Mutation test of a check: mutate.py CHECK FILE [--sample N] [--seed S].

Makes small changes to one Python source file, in an overlay of /repo which is
thrown away, runs the quick tier of the check on each and prints those that it
does not report. Survivors are for a person to judge: many change nothing.
Run it as: unshare -Urm python3 tools/mutate.py ... (it mounts the overlay).
"""

import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import tempfile

SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
        ast.Div: ast.Mult, ast.Mod: ast.Add, ast.FloorDiv: ast.Mult,
        ast.And: ast.Or, ast.Or: ast.And}


def mutants(tree):
  """Yields (line, what, mutated tree)."""
  nodes = list(ast.walk(tree))
  for i, n in enumerate(nodes):
    def clone():
      t = copy.deepcopy(tree)
      return t, list(ast.walk(t))[i]
    line = getattr(n, 'lineno', 0)
    src = ast.unparse(n) if line and not isinstance(
        n, (ast.FunctionDef, ast.ClassDef)) else type(n).__name__
    src = src.replace('\n', ' ')[:90]
    if isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
      t, m = clone()
      m.ops[0] = SWAP[type(m.ops[0])]()
      yield line, 'negate %s' % src, t
    if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in SWAP:
      t, m = clone()
      m.op = SWAP[type(m.op)]()
      yield line, 'operator %s' % src, t
    if isinstance(n, ast.BoolOp):
      t, m = clone()
      m.op = SWAP[type(m.op)]()
      yield line, 'and/or %s' % src, t
      for k in range(len(n.values)):
        t, m = clone()
        del m.values[k]
        yield line, 'drop operand %d of %s' % (k, src), t
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
      t, m = clone()
      m.op = ast.UAdd()
      m.operand = ast.Call(ast.Name('bool', ast.Load()), [m.operand], [])
      yield line, 'drop not %s' % src, t
    if isinstance(n, (ast.If, ast.IfExp)):
      for v in (True, False):
        t, m = clone()
        m.test = ast.Constant(v)
        yield n.test.lineno, 'condition %s -> %s' % (
            ast.unparse(n.test)[:80], v), t
    if isinstance(n, ast.comprehension) and n.ifs:
      t, m = clone()
      m.ifs = []
      yield n.ifs[0].lineno, 'drop filter %s' % ast.unparse(n.ifs[0]), t
    if isinstance(n, ast.Constant) and line and not isinstance(n.value, str):
      t, m = clone()
      v = n.value
      m.value = (not v) if isinstance(v, bool) else v + 1 if isinstance(
          v, (int, float)) else v
      if m.value != v or isinstance(v, bool):
        yield line, 'constant %s' % src, t
    if isinstance(n, ast.Call) and len(n.args) + len(n.keywords) > 1:
      for k in range(len(n.keywords)):
        t, m = clone()
        del m.keywords[k]
        yield line, 'drop keyword %s of %s' % (n.keywords[k].arg, src), t
      if len(n.args) == 2 and not any(
          isinstance(a, ast.Starred) for a in n.args):
        t, m = clone()
        m.args.reverse()
        yield line, 'swap arguments of %s' % src, t
    if isinstance(n, ast.BinOp) and isinstance(
        n.op, (ast.BitOr, ast.MatMult, ast.Add)) and line:
      for side in 'left', 'right':  # Only one of two rules or alternatives.
        for parent in nodes:
          for name, value in ast.iter_fields(parent):
            if value is n or isinstance(value, list) and any(
                x is n for x in value):
              t = copy.deepcopy(tree)
              q = list(ast.walk(t))[nodes.index(parent)]
              if value is n:
                setattr(q, name, getattr(getattr(q, name), side))
              else:
                k = [x is n for x in value].index(True)
                getattr(q, name)[k] = getattr(getattr(q, name)[k], side)
              yield line, 'element: only the %s of %s' % (side, src), t
    members = (n.elts if isinstance(n, (ast.List, ast.Tuple)) else
               n.args if isinstance(n, ast.Call) else [])
    if line and len(members) > 1:
      for k, v in enumerate(members):
        t, m = clone()
        del (m.args if isinstance(n, ast.Call) else m.elts)[k]
        yield getattr(v, 'lineno', line), 'element: drop %s of %s' % (
            ast.unparse(v).replace('\n', ' ')[:60], src), t
    if isinstance(n, ast.Return) and n.value is not None:
      t, m = clone()
      m.value = ast.Constant(None)
      yield line, 'return None for %s' % src, t
    body = getattr(n, 'body', None)
    if isinstance(body, list) and not isinstance(n, (ast.ClassDef, ast.Module)):
      for name in ('body', 'orelse'):
        for k, s in enumerate(getattr(n, name, [])):
          if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue,
                            ast.Break)):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
              continue
            t, m = clone()
            getattr(m, name)[k] = ast.Pass()
            yield s.lineno, 'drop %s' % ast.unparse(s).replace(
                '\n', ' ')[:90], t


def main():
  a = argparse.ArgumentParser()
  a.add_argument('check')
  a.add_argument('file')
  a.add_argument('--sample', type=int, default=10**9)
  a.add_argument('--seed', type=int, default=1)
  a.add_argument('--only', default='')
  a.add_argument('--timeout', type=int, default=180)
  a = a.parse_args()
  verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  x = tempfile.mkdtemp(prefix='nisaba-mutate-')
  for d in 'ru', 'rw', 'bu', 'bw', 'ev':
    os.mkdir(os.path.join(x, d))
  try:
    for low, up, work in (('/repo', 'ru', 'rw'),
                          ('/opt/nisaba-build', 'bu', 'bw')):
      subprocess.check_call(
          ['mount', '-t', 'overlay', 'overlay', '-o',
           'lowerdir=%s,upperdir=%s/%s,workdir=%s/%s,userxattr' % (
               low, x, up, x, work), low])
    subprocess.check_call(['mount', '--bind', x + '/ev', verif + '/evidence'])
    path = os.path.join('/repo', a.file)
    with open(path) as f:
      source = f.read()
    todo = list(mutants(ast.parse(source)))
    todo = [m for m in todo if a.only in m[1]]
    random.Random(a.seed).shuffle(todo)
    todo = sorted(todo[:a.sample], key=lambda m: m[0])
    print(len(todo), 'mutants', flush=True)
    counts = {}
    for line, what, tree in todo:
      with open(path, 'w') as f:
        f.write(ast.unparse(ast.fix_missing_locations(tree)))
      p = subprocess.Popen(['python3', 'run_check.py', a.check], cwd=verif,
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL, start_new_session=True)
      try:
        rc = p.wait(a.timeout)
      except subprocess.TimeoutExpired:
        rc = 'timeout'
        os.killpg(p.pid, 9)
        p.wait()
      counts[rc] = counts.get(rc, 0) + 1
      if rc != 1:
        print('%s:%s: exit %s: %s' % (a.file.split('/')[-1], line, rc, what),
              flush=True)
    print(counts, flush=True)
  finally:
    subprocess.call(['umount', '/repo'])
    subprocess.call(['umount', '/opt/nisaba-build'])
    shutil.rmtree(x, ignore_errors=True)


if __name__ == '__main__':
  main()
