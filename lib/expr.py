"""A reference model of expressions: finite lists of symbol sequences.

A node is ('sym', symbol), ('cat', items), ('or', items) or ANY. Symbols are
strings; '0', '!' and '?' are the control symbols for no symbol (eps), no
alternative (nor) and unknown. An empty `or` stands for a sequence with DEAD,
which is like nothing else, even itself.
"""

ANY = ('any',)
CONTROL = '0!?'
DEAD = '#'
EPS = ('sym', '0')
NOR = ('sym', '!')


def items(n):
  return list(n[1]) if n[0] in ('cat', 'or') else []


def is_any(n):
  return n is ANY or n[0] in ('cat', 'or') and len(n[1]) == 1 and is_any(
      n[1][0])


def lists(n):
  """All symbol sequences, in order. Control eps is the empty sequence."""
  if n is ANY:
    return []
  if n[0] == 'sym':
    return [()] if n == EPS else [(n[1],)]
  if n[0] == 'or':
    return [x for i in n[1] for x in lists(i)] if n[1] else [(DEAD,)]
  r = [()]
  for i in n[1]:
    r = [a + b for a in r for b in lists(i)]
  return r


def states(n):
  if n is ANY:
    return 0
  return 1 if n[0] == 'sym' else sum(map(states, n[1]))


def accepts(a, b, equivalent=False):
  if is_any(a) or is_any(b):
    return not equivalent or is_any(a) and is_any(b)
  x, y = lists(a), lists(b)
  if not x or any(DEAD in s for s in y):
    return False
  if equivalent and (not y or any(DEAD in s for s in x)):
    return False
  return set(y) <= set(x) and (not equivalent or set(x) <= set(y))


def contains(a, b, head=False, tail=False):
  if is_any(a) or is_any(b):
    return a != NOR and b != NOR
  return any(_has(lists(a), s, head, tail) for s in lists(b))


def _has(found, s, head, tail):
  if not s:
    return True
  if DEAD in s or s == ('!',):
    return False
  for f in found:
    for i in range(len(f) - len(s) + 1):
      if (f[i:i + len(s)] == s and (i == 0 or not head) and
          (i + len(s) == len(f) or not tail)):
        return True
  return False


def end_matches(a, b, tail=False):
  """Whether a starts (or ends) with b, by at least one symbol."""
  if is_any(a) or is_any(b):
    return None if NOR in (a, b) else True
  if any(lists(a)) and not any(lists(b)):
    return False
  return contains(a, b, not tail, tail)


def cat(*args):
  r = []
  for n in args:
    _cat(r, n)
  return ('cat', tuple(r))


def _cat(r, n):
  if is_any(n):
    r.append(n)
  elif n[0] == 'cat':
    for i in n[1]:
      _cat(r, i)
  elif n[0] == 'sym':
    if n[1] not in CONTROL:
      r.append(n)
  elif len(n[1]) == 1:
    _cat(r, n[1][0])
  else:
    r.append(copy(n))


def union(*args):
  r = []
  for n in args:
    _or(r, n)
  return ('or', tuple(r))


def _or(r, n):
  if any(i is ANY for i in r):
    return
  if is_any(n):
    r[:] = [n]
    return
  me = ('or', tuple(r))
  if accepts(me, n):
    if accepts(n, me) and states(n) < states(me):
      r.clear()
      _or(r, n)
  elif accepts(n, me):
    r.clear()
    _or(r, n)
  elif n[0] == 'or':
    for i in n[1]:
      _or(r, i)
  elif n[0] == 'sym':
    if n[1] not in CONTROL:
      r.append(n)
  elif len(n[1]) == 1:
    _or(r, n[1][0])
  else:
    r.append(copy(n))


def copy(n):
  if n[0] == 'or':
    return union(*n[1])
  return cat(*n[1]) if n[0] == 'cat' else n


def text(n, ctrl):
  """`ctrl` maps control symbols and ANY to their texts."""
  if n is ANY:
    return ctrl[ANY]
  if n[0] == 'sym':
    return ctrl.get(n[1], n[1])
  if not n[1]:
    return ctrl['0' if n[0] == 'cat' else '!']
  t = [text(i, ctrl) for i in n[1]]
  if n[0] == 'or' and len(t) == 1:
    t.append(ctrl['!'])
  return '(' + (' ' if n[0] == 'cat' else ' | ').join(t) + ')'


def side(n, ctrl):
  """How a side of an alignment is shown: one item without brackets."""
  if n[0] in ('cat', 'or') and len(n[1]) == 1 and not is_any(n):
    return text(n[1][0], ctrl)
  return text(n, ctrl)
