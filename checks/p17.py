"""P17: the algebra of features, their sets, distances and profiles."""

import feats as M

UT = '//nisaba/scripts/natural_translit/utils:'
LABELS = [UT + 'feature', UT + 'symbol',
          '//nisaba/scripts/natural_translit/phonology:phonological_symbol',
          '//nisaba/scripts/natural_translit/phonology/features:descriptive',
          '//nisaba/scripts/natural_translit/phonology/features:language',
          '//nisaba/scripts/natural_translit/script:grapheme']
RULE = ('random inventories of nested equidistant, linear and cyclic value '
        'lists with aliases shared between aspects and inventories, and the '
        'inventories that ship; random feature sets and profiles changed by '
        'random operations; a case is a tree, a pair of feature sets or a '
        'pair of profiles, non-trivial when it has several values')
ASSUMPTIONS = ['a feature belongs to one aspect, and aliases differ within an '
               'aspect, as the documentation asks for',
               'the range from a value to itself, and distances to plain '
               'lists, have no documented meaning and are left out']
REQUIRED = {'aspects': 150, 'distances': 50000, 'set distances': 9000,
            'uncomparable': 1500, 'set operations': 8000, 'ranges': 3000,
            'foreign ranges': 500, 'aspect sets': 600, 'membership': 15000,
            'member': 2500, 'profiles': 1200, 'updates': 1200,
            'comparisons': 2500, 'multi': 400, 'unchanged': 2000,
            'shipped': 20, 'tables': 200}
KINDS = ('equidistant', 'linear', 'cyclic')


def shards(tier):
  return ['shipped'] + ['random%d' % i for i in range(7)]


def tree(rng, names, depth):
  """A random list of values; takes its names from a shuffled list."""
  name_, spare = names.pop(), names.pop()
  kids = []
  for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 6])):
    if not names:
      break
    if depth and len(names) > 1 and rng.random() < .3:
      kids.append(tree(rng, names, depth - 1))
    else:
      n = names.pop()
      kids.append(('leaf', n, rng.choice([n, 'Text_' + n])))
  if not kids:
    kids = [('leaf', spare, spare)]
  n = name_
  return ('list', n, rng.choice([n, 'The ' + n]), rng.choice(KINDS),
          rng.choice([0, .25, .5, 1, 1, 2]), kids)


class Missing(Exception):
  """What is needed to go on is not there, and was reported."""


class World:
  """Inventories, as built and as modelled."""

  def __init__(self, ctx, ft):
    self.ctx, self.rng = ctx, ctx.rng
    self.ft, self.f = ft, ft.Feature
    self.inventories = []  # (alias, real, [M.Aspect])
    self.real = {}  # (M.Aspect, value or list name) -> real feature or list
    self.values = []  # all (M.Aspect, value), with any and n_a
    self.sets = []  # (real, model) that are not to change any more
    self.profiles = []  # (real, model)

  def make(self, t):
    if t[0] == 'leaf':
      return self.f(t[1]) if t[2] == t[1] else self.f(t[1], t[2])
    return getattr(self.f, t[3])(
        t[1] if t[2] == t[1] else (t[1], t[2]), *[self.make(c) for c in t[5]],
        step=t[4])

  def add(self, alias, trees):
    real = self.f.Inventory(alias, *[
        self.f.Aspect(self.make(t)) for t in trees])
    self.adopt(alias, real, trees)

  def adopt(self, alias, real, trees):
    aspects = [M.Aspect(alias, t) for t in trees]
    self.inventories.append((alias, real, aspects))
    for a in aspects:
      x = self.need(real, a.alias)
      self.real[a, None] = x
      for v in a.values + ['any', 'n_a']:
        self.real[a, v] = self.need(x, v)
      for t in M.lists(a.tree):
        self.real[a, t[1]] = self.need(x, t[1])
      self.values += [(a, v) for v in a.values + ['any', 'n_a']]

  def need(self, obj, alias):
    if not hasattr(obj, alias):
      self.ctx.violate('alias', 'not accessible by its alias', alias=alias)
      raise Missing
    return getattr(obj, alias)

  def of(self, real):
    """The model of a real feature."""
    if not hasattr(self, 'names'):
      self.names = {id(r): k for k, r in self.real.items()}
    return self.names.get(id(real))

  def seen(self, features):
    return {self.of(x) for x in features}

  def pick(self, most=5, aspect=None):
    k = self.rng.randrange(most + 1)
    pool = self.values
    if aspect is None and self.rng.random() < .6:
      aspect = self.rng.choice(self.rng.choice(self.inventories)[2])
    if aspect is not None:
      pool = [(aspect, v) for v in aspect.values + ['any', 'n_a']]
    return {self.rng.choice(pool) for _ in range(k)}

  def args(self, m):
    """Arguments which add up to the features of m, in some nesting."""
    rs = [self.real[x] for x in m]
    self.rng.shuffle(rs)
    out = []
    while rs:
      k = self.rng.randrange(1, len(rs) + 1)
      part, rs = rs[:k], rs[k:]
      how = self.rng.randrange(5)
      out += [part, [part], [tuple(part)], [self.f.Set(part)],
              [[part, [set(part)]]]][how]
    if self.rng.random() < .2:
      out.append(self.ft.ty.UNSPECIFIED)
    return out


def name(x):
  if isinstance(x, (set, frozenset, list, tuple)):
    return sorted(name(y) for y in x) if not (
        isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], M.Aspect)
    ) else '%s.%s.%s' % (x[0].inventory, x[0].alias, x[1])
  return str(x)


def cells(line):
  return [c.strip() for c in line.strip().strip('|').split('|')]


def aspects(ctx, w):
  """Distances between the values of each aspect; their order and lists."""
  for alias, real, models in w.inventories:
    ctx.expect(list(real) == [w.real[a, None] for a in models], 'aspects',
               'wrong aspects', inventory=alias)
    for a in models:
      ctx.case((alias, a.tree), len(a.values) > 1)
      ctx.saw('aspects')
      x = w.real[a, None]
      ctx.expect([w.of(v) for v in x] == [(a, v) for v in a.values],
                 'aspect: values', 'wrong values or order', tree=a.tree)
      ctx.expect(all(v.aspect is x and v.inventory is real for v in
                     list(x) + [x.any, x.n_a]),
                 'aspect: owner', 'not of this aspect', tree=a.tree)
      ctx.expect(w.seen(x.all) == {(a, v) for v in a.values}, 'aspect: all',
                 'not all values', tree=a.tree)
      ctx.expect(x.max_dist == a.max, 'max_dist', 'wrong', tree=a.tree,
                 got=x.max_dist, want=a.max)
      everything = a.values + ['any', 'n_a']
      for u in everything:
        for v in everything:
          ctx.saw('distances')
          got = w.real[a, u].distance(w.real[a, v])
          ctx.expect(got == a.distance(u, v), 'distance', 'wrong',
                     tree=a.tree, first=u, second=v, got=got,
                     want=a.distance(u, v))
      for t in M.lists(a.tree):
        l = w.real[a, t[1]]
        ctx.expect(w.seen(l.set()) == {(a, v) for v in M.leaves(t)},
                   'list: set', 'not the values of the list', tree=t)
        for i, c in enumerate(t[5]):
          for j, d in enumerate(t[5]):
            ctx.saw('distances')
            got = l.distance(w.real[a, c[1]], w.real[a, d[1]])
            want = M.apart(t[3], t[4], i, j, len(t[5]))
            ctx.expect(got == want, 'list: distance', 'wrong', tree=t,
                       first=c[1], second=d[1], got=got, want=want)
      ctx.saw('tables')
      lines = str(x).splitlines()
      text = {v: w.real[a, v].text for v in a.values}
      want = [['distances'] + [text[v] for v in a.values]]
      got = [cells(l) for l in lines if l.startswith('|')]
      ctx.expect(
          got[:1] == want and [r[0] for r in got[2:]] == want[0][1:] and
          [[float(c) for c in r[1:]] for r in got[2:]] == [
              [a.distance(u, v) for v in a.values] for u in a.values],
          'aspect: table', 'does not show the distances', tree=a.tree,
          got='\n'.join(lines))
      ctx.expect('max_dist: %.2f' % a.max in lines, 'aspect: table',
                 'does not show max_dist', tree=a.tree)
      edges = {tuple(l.split(' -- ')) for l in x.visualize().splitlines()
               if ' -- ' in l}
      ctx.expect(edges == {(t[1], c[1]) for t in M.lists(a.tree)
                           for c in t[5]},
                 'aspect: graph', 'does not show the tree', tree=a.tree)
      for v in w.rng.sample(a.values, min(3, len(a.values))):
        rows = str(w.real[a, v])
        if hasattr(w.real[a, v], 'numeric'):
          continue  # Scripts have a text of their own.
        got = dict(l.strip().rsplit(': ', 1) for l in rows.splitlines()[1:-1])
        want = {'%s (%s)' % (u, text[u]): '%.2f' % a.distance(u, v)
                for u in a.values if u != v}
        ctx.expect(got == want, 'feature: text', 'wrong distances',
                   tree=a.tree, value=v, got=got)


def sets(ctx, w, rounds):
  """Set operations and distances between sets."""
  f, rng = w.f, w.rng

  def is_(real, model, what, **how):
    return ctx.expect(
        isinstance(real, f.Set) and w.seen(real) == model and
        len(real) == len(model) and
        real.sorted_item_texts() == sorted(w.real[x].text for x in model),
        what, 'wrong features', got=name(w.seen(real)), want=name(model),
        **how)

  for _ in range(rounds):
    m, n = w.pick(), w.pick()
    if rng.random() < .3:
      n |= {x for x in m if rng.random() < .6}
    s, t = f.Set(*w.args(m), alias='s'), f.Set(*w.args(n), alias='t')
    ctx.case(('set', name(m), name(n)), len(m) > 1 and len(n) > 1)
    is_(s, m, 'set: build')
    is_(t, n, 'set: build')
    for other in (t, w.args(n)):
      arg = [other] if other is t else other
      ctx.saw('set operations', 3)
      for what, real, model in (('union', s.union(*arg), m | n),
                                ('difference', s.difference(*arg), m - n),
                                ('intersection', s.intersection(*arg),
                                 m & n)):
        is_(real, model, 'set: ' + what, first=name(m), second=name(n))
        real.add(*[w.real[x] for x in w.pick(2)])
        is_(s, m, 'set: %s changed its operand' % what)
        is_(t, n, 'set: %s changed its operand' % what)
    c = s.copy()
    is_(c, m, 'set: copy')
    ctx.saw('set operations')
    for what, do, model in (
        ('add', lambda: c.add(*w.args(n)), lambda k: k | n),
        ('remove', lambda: c.remove(*w.args(n)), lambda k: k - n),
        ('replace', lambda: c.replace(tuple(w.args(m)), tuple(w.args(n))),
         lambda k: (k - m) | n),
        ('update', lambda: c.update(*w.args(n)), lambda k: n),
        ('reset', c.reset, lambda k: set())):
      c.update(s)
      k = set(m)
      if rng.random() < .3:
        x = w.pick(2)
        c.add(*w.args(x))
        k |= x
      ctx.saw('set operations')
      ctx.expect(do() is c, 'set: ' + what, 'not the set itself')
      is_(c, model(k), 'set: ' + what, first=name(k), second=name(n),
          third=name(m))
      is_(s, m, 'set: %s of a copy changed the original' % what)
      is_(t, n, 'set: %s changed its argument' % what)
    is_(s.non_generic(), {x for x in m if x[1] not in ('any', 'n_a')},
        'set: non_generic')
    ctx.expect(str(s) == 's: {%s}' % ', '.join(s.sorted_item_texts()),
               'set: text', 'wrong', got=str(s))
    ctx.saw('set operations')
    ctx.expect(s.is_equal(t) == (m == n) and s.is_equal(s.copy()),
               'set: is_equal', 'wrong', first=name(m), second=name(n))
    want = M.distance(m, n)
    ctx.saw('set distances')
    if want == M.ERROR:
      ctx.saw('uncomparable')
    got = s.distance(t), t.distance(s), s.distance(w.args(n))
    ctx.expect(set(got) == {want}, 'set: distance', 'wrong', first=name(m),
               second=name(n), got=got, want=want)
    for x in list(n)[:2]:
      want = M.distance(m, {x})
      r = w.real[x]
      ctx.saw('set distances')
      got = s.distance(r), r.distance(s)
      ctx.expect(set(got) == {want}, 'set: distance to a feature', 'wrong',
                 set=name(m), feature=name(x), got=got, want=want)
    for x in list(m)[:2]:
      for y in list(n)[:2]:
        ctx.saw('distances')
        got = w.real[x].distance(w.real[y])
        ctx.expect(got == M.distance({x}, {y}), 'distance: aspects', 'wrong',
                   first=name(x), second=name(y), got=got)
    groups = {}
    for x in m:
      groups.setdefault(x[0].inventory, {}).setdefault(x[0], set()).add(x)
    got = {i.alias: {w.of(a)[0]: w.seen(v) for a, v in d.items()}
           for i, d in f.Set.group_by_aspect(*w.args(m)).items()}
    ctx.saw('set operations')
    ctx.expect(got == groups, 'group_by_aspect', 'wrong', set=name(m))
    for alias, real, _ in w.inventories:
      got = {w.of(a)[0]: w.seen(v)
             for a, v in real.aspect_dict(*w.args(m)).items()}
      ctx.expect(got == groups.get(alias, {}), 'aspect_dict', 'wrong',
                 set=name(m), inventory=alias)
    members(ctx, w, m, s)
    w.sets += [(s, m), (t, n)]
    w.sets = w.sets[-60:]


def members(ctx, w, m, s):
  """has_feature and is_in, in all kinds of objects."""
  rng = w.rng
  objects = [('set', s, m), ('list', list(w.args(m)), m),
             ('tuple', tuple(w.args(m)), m)]
  _, _, models = rng.choice(w.inventories)
  a = rng.choice(models)
  objects.append(('aspect', w.real[a, None], {(a, v) for v in a.values}))
  t = rng.choice(M.lists(a.tree))
  objects.append(('value list', w.real[a, t[1]], {(a, v) for v in M.leaves(t)}))
  if w.profiles:
    p, k = rng.choice(w.profiles)
    objects.append(('profile', p, {x for v in k.values() for x in v}))
  for what, obj, model in objects:
    names = [(x[0], n) for x in model for n in [x[1]] + x[0].above.get(
        x[1], [])]
    for x in rng.sample(names, min(2, len(names))) + [
        (a, rng.choice(a.values + [t[1] for t in M.lists(a.tree)]))]:
      want = any(M.under(y, x[1], x[0]) for y in model)
      ctx.saw('membership')
      if want:
        ctx.saw('member')
      got = [w.real[x].is_in(obj)]
      if what not in ('list', 'tuple'):
        got.append(obj.has_feature(w.real[x]))
      ctx.expect(set(got) == {want}, 'membership: ' + what, 'wrong',
                 value=name(x), object=name(model), got=got, want=want)


def ranges(ctx, w, rounds):
  f, rng = w.f, w.rng
  for i in range(rounds):
    _, real, models = rng.choice(w.inventories)
    a = rng.choice(models)
    x = w.real[a, None]
    t = rng.choice(M.lists(a.tree))
    l, n = w.real[a, t[1]], len(t[5])
    for _ in range(4):
      j, k = rng.randrange(n), rng.randrange(n)
      if j == k:
        continue
      kids, i2 = [], j
      while True:
        kids.append(t[5][i2])
        if i2 == k:
          break
        i2 = (i2 + 1) % n
      want = {(a, v) for c in kids for v in M.leaves(c)}
      first, last = w.real[a, t[5][j][1]], w.real[a, t[5][k][1]]
      ctx.saw('ranges')
      got = w.seen(l.range(first, last))
      ctx.expect(got == want, 'range', 'wrong', tree=t, first=t[5][j][1],
                 last=t[5][k][1], got=name(got))
      alias = 'r%d_%d_%d' % (i, j, k)
      if not hasattr(x, alias):
        x.set_range(alias, first, last)
        ctx.expect(w.seen(w.need(x, alias)) == want, 'set_range', 'wrong',
                   tree=t)
    y = rng.choice(w.values)
    if y[0] is not a or y[1] not in [c[1] for c in t[5]]:
      ctx.saw('foreign ranges')
      c = w.real[a, rng.choice(t[5])[1]]
      ctx.expect({l.distance(c, w.real[y]), l.distance(w.real[y], c)} ==
                 {M.ERROR}, 'list: foreign distance',
                 'values of other lists have a distance', tree=t,
                 value=name(y))
      ctx.expect(not len(l.range(c, w.real[y])) and
                 not len(l.range(w.real[y], c)), 'range: foreign',
                 'values of other lists have a range', tree=t, value=name(y))
    if i % 4 == 0:
      m = w.pick()
      own = {y for y in m if y[0] is a}
      ctx.saw('aspect sets')
      got = w.seen(x.filter(*w.args(m)))
      ctx.expect(got == own, 'filter', 'wrong', set=name(m), got=name(got))
      x.set('s%d' % i, *w.args(m))
      x.set_not('n%d' % i, *w.args(m))
      got = w.seen(w.need(x, 's%d' % i)), w.seen(w.need(x, 'n%d' % i))
      ctx.expect(got[0] == own, 'set', 'wrong', set=name(m), got=name(got[0]))
      ctx.expect(got[1] == {(a, v) for v in a.values} - own, 'set_not',
                 'wrong', set=name(m), got=name(got[1]))
      real.make_sets(('m%d' % i, w.args(m)))
      got = w.seen(w.need(real, 'm%d' % i))
      ctx.expect(got == m, 'make_sets', 'wrong', set=name(m), got=name(got))
      w.sets.append((w.need(real, 'm%d' % i), m))


def expected(models, m, n_a=False):
  """A profile: the values of each aspect."""
  r = {}
  for a in models:
    own = {x for x in m if x[0] is a}
    r[a] = own or {(a, 'n_a' if n_a else 'any')}
  return r


def same_profile(ctx, w, p, model, what, **how):
  got = {}
  for a in model:
    got[a] = w.seen(p.get(w.real[a, None]))
  ok = got == model and [w.seen(s) for s in p] == list(model.values())
  ok = ok and [s.alias for s in p] == [a.alias for a in model]
  return ctx.expect(ok, what, 'wrong values', got=name(got.values()),
                    want=name(model.values()), **how)


def unchanged(ctx, w):
  for s, m in w.sets:
    ctx.saw('unchanged')
    ctx.expect(w.seen(s) == m, 'unchanged: set',
               'a set changed without being asked to', want=name(m),
               got=name(w.seen(s)))
  for p, m in w.profiles:
    ctx.saw('unchanged')
    same_profile(ctx, w, p, m, 'unchanged: profile')


def profiles(ctx, w, rounds):
  f, rng = w.f, w.rng
  for i in range(rounds):
    alias, real, models = rng.choice(w.inventories)
    m = w.pick(8)
    for a in models:
      if rng.random() < .5:
        m |= w.pick(2, a)
    n_a = rng.random() < .3
    model = expected(models, m, n_a)
    if rng.random() < .5:
      p = f.Profile(real, 'p%d' % i, *w.args(m), unspecified_aspect_n_a=n_a)
    else:
      p = real.add_profile('p%d' % i, *w.args(m), unspecified_aspect_n_a=n_a)
      ctx.expect(getattr(real, 'p%d' % i) is p, 'add_profile', 'not there')
    ctx.case(('profile', alias, name(m), n_a), len(m) > 1)
    ctx.saw('profiles')
    same_profile(ctx, w, p, model, 'profile', features=name(m), n_a=n_a)
    ctx.expect(p.max_dist == sum(a.max for a in models), 'profile: max_dist',
               'wrong', got=p.max_dist)
    rows = [cells(l) for l in str(p).splitlines() if l.startswith('|')]
    ctx.saw('tables')
    ctx.expect(rows[2:] == [
        [a.alias, ', '.join(sorted(w.real[x].text for x in v))]
        for a, v in model.items()], 'profile: table', 'wrong', got=str(p))
    w.profiles.append((p, model))

    # A copy changes alone.
    how = rng.randrange(3)
    c = (p.copy('c%d' % i) if how == 0 else
         real.copy_profile(p, 'c%d' % i) if how == 1 else
         f.Profile(real, 'c%d' % i, p))
    same_profile(ctx, w, c, model, 'profile: copy')
    now = dict(model)
    for _ in range(rng.randrange(3)):
      u = w.pick(4)
      ctx.saw('updates')
      source = [w.f.Profile(real, 'u', *w.args(u))] if rng.random() < .2 else (
          w.args(u))
      if source and isinstance(source[0], f.Profile):
        now = expected(models, u)
      else:
        for a in models:
          own = {x for x in u if x[0] is a}
          if own:
            now[a] = own
      ctx.expect(c.update(*source) is c, 'profile: update', 'not itself')
      same_profile(ctx, w, c, now, 'profile: update', features=name(u))
      same_profile(ctx, w, p, model, 'profile: update of a copy')
      if source and isinstance(source[0], f.Profile):
        source[0].update(*w.args(w.pick(3)))
        same_profile(ctx, w, c, now, 'profile: update shares')
    w.profiles.append((c, now))
    w.profiles = w.profiles[-30:]

    for a in rng.sample(models, min(3, len(models))):
      ctx.expect(w.real[a, None].is_applicable(c) ==
                 ((a, 'n_a') not in now[a]), 'is_applicable', 'wrong',
                 aspect=a.alias, values=name(now[a]))
    o_alias, o_real, o_models = rng.choice(w.inventories)
    if o_real is not real:
      for a in o_models[:3]:
        ctx.expect(w.seen(c.get(w.real[a, None])) == {(a, 'n_a')} and
                   not w.real[a, None].is_applicable(c),
                   'profile: foreign aspect', 'has values for it',
                   profile=alias, aspect='%s.%s' % (o_alias, a.alias))
    compare(ctx, w, p, model, c, now, real, models)
    q, other = rng.choice(w.profiles)
    if q.inventory is real:
      compare(ctx, w, c, now, q, other, real, models)
    else:
      ctx.saw('comparisons')
      ctx.expect(c.similarity(q) == 0 and q.similarity(c) == 0 and
                 'not comparable' in c.comparison_table(q),
                 'similarity: inventories', 'wrong')
    if i % 10 == 9:
      unchanged(ctx, w)


def compare(ctx, w, p, m, q, n, real, models):
  rng = w.rng
  if rng.random() < .5:
    some, args = models, []
  else:
    some = rng.sample(models, rng.randrange(1, len(models) + 1))
    args = [[w.real[a, None] for a in some]]
  top = sum(a.max for a in some)
  dist = {a: M.distance(m[a], n[a]) for a in some}
  want = 1 - sum(dist.values()) / top if top else 1
  ctx.saw('comparisons')
  ctx.case(('compare', name(m.values()), name(n.values()),
            [a.alias for a in some]), len(some) > 1)
  got = p.similarity(q, *args), q.similarity(p, *args)
  ctx.expect(all(abs(g - want) < 1e-9 for g in got), 'similarity', 'wrong',
             first=name(m.values()), second=name(n.values()), got=got,
             want=want, aspects=[a.alias for a in some])
  ctx.expect(p.similarity(p) == 1, 'similarity: itself', 'not 1')
  verbose = rng.random() < .5
  text = p.comparison_table(q, *args, verbose=verbose)
  rows = [cells(l) for l in text.splitlines() if l.startswith('|')][2:]
  texts = lambda v: ', '.join(sorted(w.real[x].text for x in v))
  shown = [[a.alias, texts(m[a]), texts(n[a]), dist[a]] for a in some
           if verbose or dist[a]]
  shown += [['Total distance', '', '', sum(dist.values())],
            ['Similarity', '', '', want]]
  ok = [r[:3] for r in rows] == [r[:3] for r in shown] and all(
      abs(float(r[3]) - s[3]) < .006 for r, s in zip(rows, shown))
  ctx.expect(ok and 'max distance = %.2f)' % top in text, 'comparison table',
             'wrong', got=text, want=shown)


def multi(ctx, w, rounds):
  """A profile per inventory, independent of those it came from."""
  f, rng = w.f, w.rng
  for i in range(rounds):
    mp, model = f.MultiProfile('m%d' % i), {}
    kept, order = [], []
    for _ in range(rng.randrange(1, 5)):
      alias, real, models = rng.choice(w.inventories)
      m = w.pick(6)
      p = f.Profile(real, 'x', *w.args(m))
      mp.new_profile(p)
      order.append(alias)
      kept.append((p, expected(models, m)))
      model[alias] = expected(models, m)
      if rng.random() < .6:
        u = w.pick(3)
        mp.get(real).update(*w.args(u))
        for a in models:
          own = {x for x in u if x[0] is a}
          if own:
            model[alias][a] = own
    ctx.case(('multi', i, sorted(model)), len(model) > 1)
    c, at = mp.copy(), {k: dict(v) for k, v in model.items()}
    ctx.expect(c.alias == mp.alias and mp.copy('z').alias == 'z',
               'multi: alias', 'wrong')
    for alias, real, models in w.inventories:
      ctx.saw('multi')
      has = alias in model
      ctx.expect(mp.has_profile(real) == has, 'multi: has_profile', 'wrong')
      if not has:
        ctx.expect(mp.get(real) is real.not_applicable, 'multi: get',
                   'not the n_a profile')
        d = f.Profile(real, 'd')
        ctx.expect(mp.get(real, d) is d, 'multi: get', 'not the default')
        continue
      p = mp.get(real)
      ctx.expect(getattr(mp, alias) is p and p in list(mp), 'multi: get',
                 'not the profile')
      same_profile(ctx, w, p, model[alias], 'multi: profile')
      same_profile(ctx, w, c.get(real), at[alias], 'multi: copy')
      a = rng.choice(models)
      v = (a, rng.choice(a.values))
      c.get(real).update(w.real[v])
      at[alias][a] = {v}
      same_profile(ctx, w, p, model[alias], 'multi: copy shares')
      same_profile(ctx, w, c.get(real), at[alias], 'multi: update')
    ctx.expect(len(mp) == len(model), 'multi: len', 'wrong')
    rows = [cells(l) for l in str(mp).splitlines() if l.startswith('|')][2:]
    want = []
    for alias in dict.fromkeys(k for k in order):
      want.append(['**%s**' % alias, ''])
      want += [[a.alias, ', '.join(sorted(w.real[x].text for x in v))]
               for a, v in model[alias].items()]
    ctx.saw('tables')
    ctx.expect(rows == want, 'multi: table', 'wrong', got=str(mp))
    for p, m in kept:
      same_profile(ctx, w, p, m, 'multi: source changed')
    for alias, real, models in w.inventories:
      same_profile(ctx, w, real.not_applicable, expected(models, set(), True),
                   'n_a profile')


def shipped(ctx, w):
  """The inventories of the repository, as their lists of values say."""
  from nisaba.scripts.natural_translit.phonology.features import descriptive
  from nisaba.scripts.natural_translit.phonology.features import language
  from nisaba.scripts.natural_translit.script import grapheme
  from nisaba.scripts.natural_translit.utils import symbol
  kinds = {getattr(w.f.ValueListType, k.upper()): k for k in KINDS}

  def tree_of(x):
    if isinstance(x, w.f):
      return ('leaf', x.alias, x.text)
    return ('list', x.alias, x.text, kinds[x.list_type], x.step,
            [tree_of(c) for c in x])

  for real in (descriptive.FEATURES, language.FEATURES,
               grapheme.Grapheme.GR_FEATURES, symbol.Symbol.SYM_FEATURES):
    trees = [tree_of(a.root_list) for a in real]
    ctx.saw('shipped', len(trees))
    w.adopt(real.alias, real, trees)
    # Profiles of the inventory are complete, and its values are theirs.
    for alias in real.suppl_aliases:
      p = getattr(real, alias)
      if isinstance(p, w.f.Profile):
        ctx.expect([s.alias for s in p] == [a.alias for a in real] and
                   all(len(s) for s in p), 'shipped: profile', 'incomplete',
                   profile=alias)


def work(ctx, shard):
  try:
    work_(ctx, shard)
  except Missing:
    pass


def work_(ctx, shard):
  from nisaba.scripts.natural_translit.utils import feature as ft
  rng = ctx.rng
  worlds = 1 if shard == 'shipped' else ctx.n(12, 160)
  for k in range(worlds):
    w = World(ctx, ft)
    if shard == 'shipped':
      shipped(ctx, w)
    else:
      for i in range(rng.choice([2, 2, 3])):
        trees, aliases = [], set()
        for _ in range(rng.randrange(1, 5)):
          names = ['w%d' % j for j in range(24)]
          rng.shuffle(names)
          t = tree(rng, names, 3)
          if t[1] not in aliases:
            aliases.add(t[1])
            trees.append(t)
        w.add('inv%d' % i, trees)
    scale = ctx.n(8, 60) if shard == 'shipped' else 1
    aspects(ctx, w)
    ranges(ctx, w, 30 * scale)
    sets(ctx, w, 60 * scale)
    profiles(ctx, w, 40 * scale)
    multi(ctx, w, 10 * scale)
    aspects(ctx, w)
    unchanged(ctx, w)
