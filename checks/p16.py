"""P16: expressions, their comparison, and alignment rules."""

import os
import expr as E

UT = '//nisaba/scripts/natural_translit/utils:'
LABELS = [UT + 'expression', UT + 'symbol', UT + 'operation']
RULE = ('random expressions of concatenations, alternatives, repetitions, '
        'optional parts and copies of symbols, atomic and control symbols, '
        'nested up to four deep, built at once or item by item, compared in '
        'pairs; random alignments and rules over them; a case is a pair of '
        'expressions, non-trivial when neither is a single symbol')
ASSUMPTIONS = ['concatenations with an item that accepts anything, and '
               'alignments within expressions, have no documented meaning '
               'and are left out']
SCALE = 1  # Of the quick tier.
REQUIRED = {'expressions': 3000, 'symbols': 6000, 'states': 3000,
            'accepts': 50000, 'accepted': 2500, 'contains': 50000,
            'contained': 10000, 'ends': 30000, 'ends met': 2500,
            'text': 3000, 'unchanged': 2500, 'recurring': 20,
            'alignments': 1200, 'context': 3000, 'context met': 400,
            'rules': 1000, 'copies': 1000}
SYMS = 'abcd'


def shards(tier):
  return [str(i) for i in range(8)]


class World:

  def __init__(self, rng):
    from nisaba.scripts.natural_translit.utils import expression as exp
    from nisaba.scripts.natural_translit.utils import operation as op
    from nisaba.scripts.natural_translit.utils import symbol as sym
    self.exp, self.op, self.sym, self.rng = exp, op, sym, rng
    self.symbols = {c: sym.Symbol(c, c, c) for c in SYMS}
    self.name = {id(s): c for c, s in self.symbols.items()}
    ctrl = {'0': 'eps', '!': 'nor', '?': 'unk'}
    self.text = {}
    for c, a in ctrl.items():
      s = getattr(sym.Symbol.CTRL, a)
      self.symbols[c] = s
      self.name[id(s)] = c
      self.text[c] = str(s)
    self.text[E.ANY] = str(exp.Expression.ANY)

  def lists(self, e):
    """What symbols() gives, as the model has it."""
    r = []
    for l in e.symbols():
      t = tuple(self.name.get(id(s), E.DEAD) for s in l)
      r.append(() if t == ('0',) else t)
    return r

  def leaf(self):
    exp, rng = self.exp, self.rng
    r = rng.random()
    if r < .04:
      return E.ANY, exp.Expression.ANY
    c = rng.choice('0!?') if r < .12 else rng.choice(SYMS)
    s = self.symbols[c]
    n = ('sym', c)
    if rng.random() < .25:
      return n, s
    a = exp.Atomic.get_instance(s)
    return n, (exp.Atomic.get_instance(a) if rng.random() < .2 else a)

  def make(self, depth):
    """A random model node and expression."""
    exp, rng = self.exp, self.rng
    if depth == 0 or rng.random() < .15:
      return self.leaf()
    r = rng.random()
    if r < .72:
      k = rng.choice((0, 1, 1, 2, 2, 2, 3, 3, 4))
      parts = [self.make(depth - 1) for _ in range(k)]
      if r < .36:
        # (What else may stand by something that accepts anything?)
        if len(parts) > 1:
          parts = [p for p in parts if not E.is_any(p[0])]
        kind, ours = exp.Cat, E.cat
      else:
        kind, ours = exp.Or, E.union
      n = ours(*(p[0] for p in parts))
      if rng.random() < .5:
        return n, kind(*(p[1] for p in parts), alias=rng.choice(('', 'x')))
      e = kind()
      for p in parts:
        e.add(p[1])
      return n, e
    a, x = self.make(depth - 1)
    if not isinstance(x, exp.Expression):
      a, x = a, exp.Atomic.get_instance(x)
    if r < .78:
      k = rng.randrange(4)
      if E.is_any(a):
        k = 1
      return E.cat(*[a] * k), x.repeat(k)
    if r < .84:
      p = rng.random() < .5
      n = E.union(a, E.cat()) if p else E.union(E.cat(), a)
      return n, x.ques(p) if p or rng.random() < .5 else x.ques()
    if r < .88:
      return E.copy(a), x.copy()
    b, y = self.make(depth - 1)
    if r < .94 and not E.is_any(a) and not E.is_any(b):
      return E.cat(a, b), x + y
    return E.union(a, b), x | y

  def some(self):
    while True:
      n, e = self.make(self.rng.randrange(5))
      if len(E.lists(n)) <= 40 and E.states(n) <= 40:
        return n, e

  def ambiguous(self):
    """A concatenation which is the same in two ways, and its sequences."""
    rng = self.rng
    exp = self.exp

    def seq(t):
      return (E.cat(*(('sym', c) for c in t)),
              exp.Cat(*(self.symbols[c] for c in t)))

    def seqs(ts):
      r = [seq(t) for t in ts]
      return E.union(*(x for x, _ in r)), exp.Or(*(x for _, x in r))

    a = [seqs({''.join(rng.choice('ab') for _ in range(rng.randrange(4)))
               for _ in range(rng.randrange(1, 4))}) for _ in range(2)]
    both = E.cat(a[0][0], a[1][0]), exp.Cat(a[0][1], a[1][1])
    flat = sorted(set(E.lists(both[0])))
    rng.shuffle(flat)
    return [both, seqs(flat), seqs(flat[1:]), seqs(flat + [('c',)])]


def work(ctx, shard):
  w = World(ctx.rng)
  exp = w.exp
  rng = ctx.rng
  rounds = ctx.n(60, 900)
  for _ in range(rounds):
    pool = [w.some() for _ in range(12)] + w.ambiguous()
    for n, e in pool:
      alone(ctx, w, n, e)
    for n, e in pool:
      for m, f in pool:
        pair(ctx, w, n, e, m, f)
    # A part is not tied to where it is used.
    for n, e in pool:
      if isinstance(e, (exp.Cat, exp.Or)) and not E.is_any(n):
        whole = rng.choice((exp.Cat, exp.Or))(w.symbols['a'], e)
        before = w.lists(whole)
        if isinstance(e, exp.Cat) or not E.is_any(n):
          e.add(w.symbols[rng.choice(SYMS)], w.symbols[rng.choice(SYMS)])
        ctx.saw('unchanged')
        ctx.expect(w.lists(whole) == before, 'unchanged',
                   'changing a part changes the whole', part=repr(n))
    for _ in range(5):
      alignments(ctx, w)


def alone(ctx, w, n, e):
  ctx.saw('expressions')
  want = E.lists(n)
  for _ in range(2):  # Asking must not change anything.
    got = w.lists(e)
    ctx.saw('symbols')
    ctx.expect(got == want, 'symbols', 'not the sequences it stands for',
               node=repr(n), got=got, want=want)
  if len(set(want)) < len(want):
    ctx.saw('recurring')
  ctx.saw('states')
  ctx.expect(e.state_count() == E.states(n), 'states', 'wrong number',
             node=repr(n), got=e.state_count(), want=E.states(n))
  ctx.expect(e.is_any() == E.is_any(n), 'is_any', 'wrong', node=repr(n),
             got=e.is_any())
  ctx.expect(e.is_eps() == (n == E.EPS), 'is_eps', 'wrong', node=repr(n))
  ctx.expect(e.is_nor() == (n == E.NOR), 'is_nor', 'wrong', node=repr(n))
  ctx.expect(e.is_control() == (n[0] == 'sym' and n[1] in E.CONTROL),
             'is_control', 'wrong', node=repr(n))
  if isinstance(e, w.exp.Expression):
    c = e.copy()
    ctx.expect(w.lists(c) == want or E.copy(n) != n, 'copy',
               'not the same sequences', node=repr(n), got=w.lists(c))
    if n[0] in ('cat', 'or'):
      ctx.expect(len(e) == len(n[1]), 'len', 'wrong number of items',
                 node=repr(n), got=len(e))
      ctx.expect(all(x is not y for x in e for y in c
                     if not x.is_any()), 'copy: shared',
                 'a copy has parts of the original', node=repr(n))
  if E.is_any(n):
    return
  ctx.saw('text')
  ctx.expect(str(e) == E.text(n, w.text), 'text', 'not as documented',
             node=repr(n), got=str(e), want=E.text(n, w.text))


def pair(ctx, w, n, e, m, f):
  ctx.case((n, m), n[0] != 'sym' and m[0] != 'sym')

  def tell(what, got, want, **how):
    ctx.saw(what)
    return ctx.expect(got == want, what, 'wrong answer', this=repr(n),
                      other=repr(m), got=got, want=want, **how)

  nor = n == E.NOR or m == E.NOR
  any_ = E.is_any(n) or E.is_any(m)
  if not (nor and any_):
    for eq in (False, True):
      want = E.accepts(n, m, eq)
      tell('accepts', e.accepts(f, eq), want, equivalent=eq)
    tell('accepts', e.is_equivalent(f), want)
    if want or E.accepts(n, m):
      ctx.saw('accepted')
  for head in (False, True):
    for tail in (False, True):
      want = E.contains(n, m, head, tail)
      tell('contains', e.contains(f, head, tail), want, head=head, tail=tail)
      tell('contains', f.is_contained(e, match_tail=tail, match_head=head),
           want, head=head, tail=tail)
      if want:
        ctx.saw('contained')
  tell('contains', e.matches(f), E.contains(n, m, True, True))
  for tail, do, undo in ((False, e.head_matches, f.is_prefix),
                         (True, e.tail_matches, f.is_suffix)):
    want = E.end_matches(n, m, tail)
    if want is not None:
      tell('ends', do(f), want, tail=tail)
      tell('ends', undo(e), want, tail=tail)
      if want and E.lists(m):
        ctx.saw('ends met')


def alignments(ctx, w):
  exp, op, rng = w.exp, w.op.Operation, w.rng
  ops = [o for o in op.COMMON]

  def side(any_=.3):
    if rng.random() < any_:
      return E.ANY, exp.Expression.ANY
    if rng.random() < .5:
      c = rng.choice(SYMS)
      return ('sym', c), exp.Atomic.get_instance(w.symbols[c])
    while True:
      n, e = w.some()
      if isinstance(e, exp.Expression) and (n is E.ANY or not E.is_any(n)):
        return n, e

  def lists(e):
    return None if e.is_any() else w.lists(e)

  def both(any_=.3):
    (l, x), (r, y) = side(any_), side(any_)
    return (l, r), x >> y

  (l, r), al = both(.1)
  (pl, pr), pre = both(.6)
  (fl, fr), fol = both(.6)
  bos, eos = rng.random() < .3, rng.random() < .3
  operation = rng.choice(ops)
  cost = rng.choice([None, 0, 1, 2, .5, 7.25, 100])
  priority = rng.randrange(3)
  source = rng.choice(list(exp.AlignmentSource)[2:])
  args = dict(preceding=pre, following=fol, from_bos=bos, to_eos=eos,
              operation=operation, priority=priority, source=source)
  if cost is not None:
    args['applied_cost'] = cost
  kind = rng.choice(['rule', 'deletion', 'insertion', 'interchangeable'])
  if kind == 'rule':
    made = [(exp.Alignment.rule('x', al, **args), 'x', l, r)]
  elif kind == 'deletion':
    made = [(exp.Alignment.deletion('x', al.left, **args), 'x', l, E.EPS)]
  elif kind == 'insertion':
    made = [(exp.Alignment.insertion('x', al.right, **args), 'x', E.EPS, r)]
  else:
    a, b = exp.Alignment.interchangeable('x', al, **args)
    made = [(a, 'x_l2r', l, r), (b, 'x_r2l', r, l)]

  def same(what, got, want, **detail):
    return ctx.expect(got == want, 'rule: ' + what, 'not as asked for',
                      kind=kind, got=got, want=want, **detail)

  def look(a, alias, l, r):
    same('alias', a.alias, alias)
    for what, got, want in (
        ('left', a.left, l), ('right', a.right, r),
        ('preceding', a.preceding.left, pl),
        ('preceding', a.preceding.right, pr),
        ('following', a.following.left, fl),
        ('following', a.following.right, fr)):
      same(what, got.is_any(), E.is_any(want))
      if not E.is_any(want):
        same(what, w.lists(got), E.lists(want))
    same('bos', a.from_bos, bos)
    same('eos', a.to_eos, eos)
    same('operation', str(a.operation), str(operation))
    same('cost', a.applied_cost,
         float(operation.base_cost if cost is None else cost), cost=cost)
    same('priority', a.priority, priority)
    same('source', a.source, source)
    same('assigned', a.is_assigned(),
         operation.alias not in ('unassigned', 'error'))

    def show(x, y):
      return E.side(x, w.text) + '∶' + E.side(y, w.text)
    t = '('
    if not (E.is_any(pl) and E.is_any(pr)):
      t += '⌈%s%s⌋ ' % (str(w.sym.Symbol.CTRL.bos) if bos else '',
                         show(pl, pr))
    t += show(l, r)
    if not (E.is_any(fl) and E.is_any(fr)):
      t += ' ⌈%s%s⌋' % (show(fl, fr),
                         str(w.sym.Symbol.CTRL.eos) if eos else '')
    if operation.alias not in ('unassigned', 'error'):
      t += ', ' + str(operation)
    same('text', a.string(), t + ')')
    same('row', a.tsv_row(), '\t'.join((
        alias, *(''.join(E.text(i, w.text) for i in (
            [x] if x[0] == 'sym' else E.items(x))) for x in (l, r)),
        str(operation.match), str(a.applied_cost))))

  for a, alias, x, y in made:
    ctx.saw('rules')
    look(a, alias, x, y)
    ctx.saw('copies')
    look(a.copy(), alias, x, y)

  # The rule in some contexts.
  a = made[0][0]
  for _ in range(3):
    (xl, xr), x = both(.3)
    (yl, yr), y = both(.3)
    if rng.random() < .3:
      (xl, xr), x = (pl, pr), pre
    if rng.random() < .3:
      (yl, yr), y = (fl, fr), fol

    def met(mine, theirs, whole, tail):
      if whole:
        return E.contains(mine, theirs, True, True)
      return E.end_matches(theirs, mine, tail)

    want = [met(pl, xl, bos, True), met(pr, xr, bos, True),
            met(fl, yl, eos, False), met(fr, yr, eos, False)]
    if None in want:
      continue
    ctx.saw('context')
    if all(want):
      ctx.saw('context met')
    got = a.context_matches(x, y)
    ctx.expect(got == all(want), 'context', 'wrong answer', kind=kind,
               preceding=repr((pl, pr)), found=repr((xl, xr)),
               following=repr((fl, fr)), next=repr((yl, yr)), bos=bos,
               eos=eos, got=got, want=all(want))

  # Alignments are compared side by side.
  pool = [both() for _ in range(3)] + [((l, r), al)]
  for (a1, a2), x in pool:
    for (b1, b2), y in pool:
      ctx.saw('alignments')
      if {E.NOR} & {a1, a2, b1, b2}:
        continue
      h, t = rng.random() < .5, rng.random() < .5
      for what, got, f in (
          ('accepts', x.accepts(y), E.accepts),
          ('equivalent', x.is_equivalent(y),
           lambda a, b: E.accepts(a, b, True)),
          ('contains', x.contains(y, h, t),
           lambda a, b: E.contains(a, b, h, t)),
          ('contained', x.is_contained(y, h, t),
           lambda a, b: E.contains(b, a, h, t)),
          ('matches', x.matches(y), lambda a, b: E.contains(a, b, True, True)),
          ('head', x.head_matches(y), E.end_matches),
          ('prefix', x.is_prefix(y), lambda a, b: E.end_matches(b, a)),
          ('tail', x.tail_matches(y), lambda a, b: E.end_matches(a, b, True)),
          ('suffix', x.is_suffix(y),
           lambda a, b: E.end_matches(b, a, True))):
        want = bool(f(a1, b1) and f(a2, b2))
        ctx.expect(got == want, 'alignment: ' + what, 'wrong answer',
                   this=repr((a1, a2)), other=repr((b1, b2)), got=got,
                   want=want)
      ctx.expect(not x.accepts(x.left) and not x.contains(x.left),
                 'alignment: other', 'an alignment is like an expression',
                 this=repr((a1, a2)))
