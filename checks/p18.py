"""P18: inventories of things, symbols, phonemes, graphemes and operations."""

import unicodedata

UT = '//nisaba/scripts/natural_translit/utils:'
NT = '//nisaba/scripts/natural_translit/'
LABELS = [UT + x for x in ('inventory', 'type_op', 'symbol', 'feature',
                           'operation', 'lattice', 'expression')] + [
    NT + 'phonology:phonological_symbol',
    NT + 'phonology/features:descriptive',
    NT + 'phonology/features:language',
    NT + 'phonology/inventories:x_uni', NT + 'script:grapheme',
    NT + 'script/inventories:latn', NT + 'language_params:en']
RULE = ('random histories of additions, imports, copies and lookups on '
        'inventories, with aliases, values, indices and texts that recur, '
        'each followed by a comparison with a model of the history; and all '
        'members of the inventories that ship; a case is one history or one '
        'member, non-trivial when it has more than one step')
ASSUMPTIONS = ['aliases are attribute names, as the documentation asks for',
               'the language of a grapheme is that of the inventory that it '
               'was added to last']
SCALE = 2  # Of the quick tier.
REQUIRED = {'things': 400, 'equal': 3000, 'iterables': 900,
            'inventories': 900, 'additions': 9000, 'lookups': 20000,
            'symbols': 5000, 'parses': 900, 'unknown': 900, 'features': 1500,
            'pairs': 900, 'descriptions': 500, 'phonemes': 2500,
            'copies': 900, 'graphemes': 2500, 'imports': 500, 'synced': 1500,
            'chars': 900, 'operations': 900, 'lattices': 500, 'states': 9000,
            'shipped phonemes': 100, 'shipped graphemes': 120,
            'common operations': 40}


def shards(tier):
  return ['shipped'] + ['random%d' % i for i in range(7)]


# Things, their equality, iterables.


def things(ctx, ty, pyn):
  rng = ctx.rng
  class Thing(ty.Thing):
    pass
  pool = [1, 1.0, 'a', 'b', (1, 2), None, [3], ty.MISSING, ty.UNSPECIFIED,
          ty.UNASSIGNED, {4}]
  made = []
  for _ in range(25):
    ctx.saw('things')
    alias = 't%d' % rng.randrange(9)
    text = rng.choice(['', 'text'])
    kw, value = {}, None
    source = rng.choice([None, rng.choice(pool)] + made[-3:])
    attr = rng.choice(['', 'alias', 'value', 'text', 'nothing_such'])
    if source is not None:
      kw['value_from'] = source
    if attr:
      kw['from_attribute'] = attr
    t = rng.choice([ty.Thing, Thing])(alias, text, **kw)
    if source is None or isinstance(source, ty.Nothing):
      value = t
    else:
      value = getattr(source, attr, source) if attr else source
    ctx.case(('thing', alias, text, repr(kw)), bool(kw))
    ctx.expect(t.alias == alias and (t.value is value or t.value == value),
               'thing', 'wrong alias or value', kw=kw, got=t.value)
    if text:
      ctx.expect(t.text.startswith(text), 'thing: text', 'wrong', got=t.text)
    made.append(t)
  fsts = [pyn.accep('a'), pyn.accep('b'), pyn.union('a', 'b'),
          pyn.union('b', 'a').optimize(), pyn.accep('')]

  def value(x):
    return x.value if isinstance(x, ty.Thing) else x

  def equal(x, y):
    fx, fy = isinstance(x, pyn.Fst), isinstance(y, pyn.Fst)
    if fx or fy:
      if not ((fx or isinstance(x, str)) and (fy or isinstance(y, str))):
        return False
      strings = []
      for z in (x, y):
        if not isinstance(z, pyn.Fst):
          strings.append(z)
        else:
          try:
            strings.append(z.string())
          except pyn.FstOpError:
            strings.append(None)
      if None not in strings:
        return strings[0] == strings[1]
      if None in strings and strings[0] != strings[1]:
        return False
      return None  # As alike as their FSTs.
    x, y = value(x), value(y)
    return not (isinstance(x, ty.Nothing) or isinstance(y, ty.Nothing)) and (
        x is y or x == y)

  everything = made[:12] + pool + fsts
  for _ in range(120):
    x, y = rng.choice(everything), rng.choice(everything)
    if rng.random() < .2:
      y = x
    want = equal(x, y)
    if want is None:
      continue
    ctx.saw('equal')
    ctx.expect(bool(ty.is_equal(x, y)) == want, 'is_equal', 'wrong',
               x=repr(x), y=repr(y), want=want)
    ctx.expect(bool(ty.is_equal(y, x)) == want, 'is_equal', 'not symmetric',
               x=repr(x), y=repr(y))
  for x in fsts + ['a', '', 3]:
    try:
      want = isinstance(x, str) or isinstance(x.string(), str)
    except (AttributeError, pyn.FstOpError):
      want = False
    ctx.expect(bool(ty.is_string(x)) == want, 'is_string', 'wrong', x=repr(x))
  for _ in range(40):
    x, d = rng.choice(pool), rng.choice([0, '', [], (), ty.MISSING])
    got = ty.type_check(x, d)
    ctx.expect(got is (x if isinstance(x, type(d)) else d), 'type_check',
               'wrong', x=repr(x), default=repr(d), got=repr(got))


def iterables(ctx, ty):
  rng = ctx.rng

  def nested(depth):
    k = rng.randrange(10)
    if k < 3 and depth:
      xs = [nested(depth - 1) for _ in range(rng.randrange(4))]
      return rng.choice([list, tuple])(xs)
    if k < 5 and depth:
      return ty.IterableThing(
          *[nested(depth - 1) for _ in range(rng.randrange(4))])
    return rng.choice([0, 1, 2, 'ab', '', 'x', ty.MISSING, 2.5,
                       ty.Thing('thing')])

  def flat(x, kind, own):
    """What adding x makes an iterable hold."""
    if kind is None:
      if isinstance(x, ty.Nothing):
        return []
      if type(x) is not own:
        return [x]
    elif isinstance(x, kind):
      return [x]
    if isinstance(x, str) or not hasattr(x, '__iter__'):
      return []
    return [z for y in x for z in flat(y, kind, own)]

  for _ in range(20):
    kind = rng.choice([None, None, int, str, float, ty.IterableThing, list,
                       ty.Thing])
    args = [nested(3) for _ in range(rng.randrange(5))]
    more = [nested(2) for _ in range(rng.randrange(3))]
    t = ty.IterableThing(*args, alias='it', **(
        {'typed': kind} if kind else {}))
    want = [z for x in args for z in flat(x, kind, ty.IterableThing)]
    for step in range(2):
      ctx.saw('iterables')
      ctx.case(('iterable', repr(kind), repr(args), step), len(want) > 1)
      got = list(t)
      ok = len(got) == len(want) and all(
          a is b or a == b for a, b in zip(got, want)) and len(t) == len(want)
      ctx.expect(ok, 'iterable', 'wrong items', kind=repr(kind),
                 args=repr(args), got=repr(got))
      ctx.expect(bool(t) == bool(want), 'iterable: bool', 'wrong')
      for i in range(-len(want) - 2, len(want) + 2):
        x = t.item(i)
        y = want[i] if -len(want) <= i < len(want) else ty.MISSING
        ctx.expect(x is y or x == y, 'iterable: item', 'wrong', index=i,
                   got=repr(x), want=repr(y))
        if y is ty.MISSING:
          ctx.expect(t.item(i, 'd') == 'd', 'iterable: item', 'no default')
      if step == 0:
        if t.add(*more) is not t:
          ctx.violate('iterable: add', 'gives another')
        want += [z for x in more for z in flat(x, kind, ty.IterableThing)]


# Inventories of things.


def inventories(ctx, ty, inventory):
  rng = ctx.rng
  reserved = ['alias', 'text', 'item_aliases']
  for _ in range(20):
    typed = rng.choice([None, ty.Thing, int])
    attr = rng.choice(['', '', 'value', 'tag'])
    pool = []
    for i in range(14):
      alias = rng.choice(['a%d' % rng.randrange(8)] * 6 + reserved)
      t = ty.Thing(alias, value_from=rng.choice(
          [1, 2, 3, 'x', 'y', ty.UNSPECIFIED]))
      if rng.random() < .4:
        t.tag = rng.choice([7, 8, 't'])
      pool.append(t)
    supplied = [ty.Thing('a%d' % rng.randrange(10), value_from=rng.choice(
        [5, 'suppl'])) for _ in range(rng.randrange(3))]
    first = [rng.choice(pool) for _ in range(rng.randrange(5))]
    kw = {} if typed is None else {'typed': typed}
    inv = inventory.Inventory.from_list(
        first, attr=attr, alias=rng.choice(['', 'inv']),
        **kw, **({'suppls': supplied} if supplied else {}))
    items, aliases, suppls = [], [], {}

    def valid(v):
      if typed is None:
        return not isinstance(v, ty.Nothing) and (
            type(v) is not inventory.Inventory)
      return isinstance(v, typed)

    def add(t, attr):
      v = getattr(t, attr, ty.MISSING) if attr else t
      if not valid(v) or v in items or t.alias in aliases or (
          t.alias in suppls) or t.alias in reserved:
        return False
      items.append(v)
      aliases.append(t.alias)
      return True

    def suppl(alias, v):
      if alias in aliases or alias in suppls or alias in reserved:
        return False
      suppls[alias] = v
      return True

    for t in first:
      add(t, attr)
    for t in supplied:
      suppl(t.alias, t.value)
    for step in range(14):
      k = rng.randrange(6)
      if step:
        ctx.saw('additions')
        if k < 3:
          t, at = rng.choice(pool), rng.choice([attr, '', 'value'])
          want = add(t, at)
          ctx.expect(bool(inv.add_item(t, at)) == want, 'add_item',
                     'wrong answer', alias=t.alias, attr=at, want=want)
        elif k == 3:
          t = rng.choice(pool)
          want = suppl(t.alias, t.value)
          ctx.expect(bool(inv.add_suppl(t)) == want, 'add_suppl',
                     'wrong answer', alias=t.alias, want=want)
        elif k == 4:
          alias, v = rng.choice(pool).alias, rng.choice([None, 9, [], ['l']])
          want = suppl(alias, v)
          ctx.expect(bool(inv.make_suppl(alias, v)) == want, 'make_suppl',
                     'wrong answer', alias=alias, want=want)
        else:
          inv.add(rng.choice(pool))
      ctx.saw('inventories')
      ctx.expect(list(inv) == items and len(inv) == len(items),
                 'inventory: items', 'wrong', got=repr(list(inv)),
                 want=repr(items))
      for t in pool:
        ctx.saw('lookups')
        alias = t.alias
        if alias in reserved:
          ctx.expect(inv.get(alias, 'none') == 'none', 'inventory: get',
                     'a field that is not of the inventory', alias=alias)
          continue
        there = alias in aliases or alias in suppls
        v = items[aliases.index(alias)] if alias in aliases else (
            suppls.get(alias))
        ctx.expect(hasattr(inv, alias) == there and (
            not there or getattr(inv, alias) is v or
            getattr(inv, alias) == v), 'inventory: alias', 'wrong',
                   alias=alias)
        got = inv.get(alias)
        ctx.expect((got is v or got == v) if there else got is ty.MISSING,
                   'inventory: get', 'wrong', alias=alias, got=repr(got))
        if not there:
          ctx.expect(inv.get(alias, 'd') == 'd', 'inventory: get',
                     'no default')
    ctx.case(('inventory', repr(items), repr(suppls)), len(items) > 1)
  ctx.expect(len(inventory.Inventory.EMPTY) == 0, 'inventory: EMPTY',
             'has items')


# Symbols.


class Model:
  """What an inventory of symbols should hold."""

  def __init__(self, ctrl):
    self.items, self.aliases, self.suppls = [], {}, {}
    self.index, self.raw, self.text = {}, {}, {}
    for c in ctrl:
      self.put(c)

  def put(self, s):
    self.index[s.index] = s
    if s.text:
      self.text[s.text] = s
    if s.raw:
      self.raw[s.raw] = s

  def free(self, alias):
    return alias not in self.aliases and alias not in self.suppls

  def add(self, s, kind, ctrl):
    if not isinstance(s, kind) or s in self.items or not self.free(s.alias):
      return False
    self.items.append(s)
    self.aliases[s.alias] = s
    self.put(s)
    return True


def agree(ctx, inv, m, ctrl, mech, absent):
  """An inventory of symbols against its model."""
  ctx.expect(list(inv) == m.items, mech + ': items', 'wrong',
             got=[s.alias for s in inv], want=[s.alias for s in m.items])
  for alias, s in m.aliases.items():
    ctx.expect(inv.get(alias) is s and getattr(inv, alias) is s,
               mech + ': alias', 'wrong', alias=alias)
  for alias, want in m.suppls.items():
    ctx.expect(list(inv.get(alias)) == want, mech + ': supplement', 'wrong',
               alias=alias)
  for what, table, look in (('index', m.index, inv.index_lookup),
                            ('raw', m.raw, inv.raw_lookup),
                            ('text', m.text, inv.text_lookup)):
    ctx.saw('lookups', len(table))
    for k, s in table.items():
      ctx.expect(look(k) is s, mech + ': lookup', 'wrong symbol', by=what,
                 key=k, want=s.alias)
    for k in absent:
      if k not in table:
        ctx.expect(look(k) is ctrl.unk, mech + ': lookup', 'found a symbol',
                   by=what, key=k)


TEXTS = ['a', 'b', 'ক', '🐱', 'ab', '', 'e\u0301']
CHARS = 'abcকখ🐱é\u0301\u200d\x00z'


def symbols(ctx, sym, ft, ty):
  rng = ctx.rng
  Symbol, ctrl = sym.Symbol, sym.Symbol.CTRL
  types = Symbol.SYM_FEATURES.type

  def new():
    kw = {}
    if rng.random() < .7:
      kw['text'] = rng.choice(TEXTS)
    if rng.random() < .6:
      kw['raw'] = rng.choice(TEXTS)
    if rng.random() < .8:
      kw['index'] = rng.randrange(20)
    if rng.random() < .4:
      kw['name'] = rng.choice(['NAME', 'OTHER NAME'])
    s = Symbol('s%d' % rng.randrange(14), **kw)
    ctx.saw('symbols')
    ctx.expect(s.raw == kw.get('raw', '') and
               s.name == kw.get('name', s.alias) and
               ('index' not in kw or s.index == kw['index']) and
               (not kw.get('text') or s.text == kw['text']), 'symbol',
               'wrong fields', kw=kw)
    ctx.expect(s.symbols() == [[s]] and not s.is_control(), 'symbol', 'wrong')
    ctx.expect(s.has_feature(types.raw) == bool(s.raw) and
               s.has_feature(types.abst) == (not s.raw), 'symbol: type',
               'wrong', kw=kw)
    return s

  for _ in range(6):
    pool = [new() for _ in range(14)]
    invs = []
    home = {id(s): None for s in pool}
    for j in range(2):
      start = [rng.choice(pool) for _ in range(rng.randrange(4))]
      inv = Symbol.Inventory('inv%d' % j, *start)
      m = Model(ctrl)
      for s in start:
        if m.add(s, Symbol, ctrl) and home[id(s)] is None:
          home[id(s)] = inv
      invs.append((inv, m))
    for step in range(8):
      inv, m = rng.choice(invs)
      k = rng.randrange(5)
      if k < 3:
        some = [rng.choice(pool) for _ in range(rng.randrange(4))]
        if rng.random() < .2:
          some.insert(0, 'not a symbol')
        alias = rng.choice(['', 'list%d' % rng.randrange(3), 's3'])
        want = []
        for s in some:
          ctx.saw('additions')
          if m.add(s, Symbol, ctrl):
            want.append(s)
            if home[id(s)] is None:
              home[id(s)] = inv
        if alias and m.free(alias):
          m.suppls[alias] = list(want)
        got = inv.add_symbols(*some, list_alias=alias)
        ctx.expect(got == want, 'add_symbols', 'wrong symbols returned',
                   got=[s.alias for s in got], want=[s.alias for s in want])
      elif k == 3:
        ctx.saw('parses')
        base = rng.choice([None, rng.choice(invs)])
        real, model = base or (inv, m)
        text = ''.join(rng.choice(CHARS) for _ in range(rng.randrange(7)))
        how = rng.choice([inv.parse, inv.str_to_raw_symbols])
        got = list(how(text, real) if base else how(text))
        ctx.case(('parse', text, sorted(model.raw)), len(text) > 1)
        if not ctx.expect([s.raw for s in got] == list(text), 'parse',
                          'the symbols are not those of the text', text=text,
                          got=[s.raw for s in got]):
          continue
        for c, s in zip(text, got):
          if c in model.raw:
            ctx.expect(s is model.raw[c], 'parse', 'not the known symbol',
                       text=text, char=c)
          else:
            ctx.saw('unknown')
            ctx.expect(s.index not in model.index, 'unknown', 'index is taken',
                       index=s.index)
            ctx.expect(model.add(s, Symbol, ctrl), 'unknown',
                       'alias is taken', alias=s.alias)
            ctx.expect(s.inventory is real, 'unknown', 'not of the inventory')
            home[id(s)] = real
            pool.append(s)
      else:
        alias = rng.choice(['supp%d' % rng.randrange(3), 's5'])
        some = [rng.choice(pool) for _ in range(3)]
        free = m.free(alias)
        if free:
          m.suppls[alias] = some
        ctx.expect(bool(inv.make_iterable_suppl(alias, *some)) == free,
                   'make_iterable_suppl', 'wrong answer', alias=alias)
      for inv, m in invs:
        agree(ctx, inv, m, ctrl, 'symbols',
              [777, 'absent', rng.randrange(30)] + TEXTS[:3])
      for s in pool:
        h = home[id(s)]
        ctx.expect(s.inventory is (h if h is not None else
                                   Symbol.Inventory.EMPTY),
                   'symbol: inventory', 'not the first it was added to',
                   alias=s.alias)
    for inv, m in invs:
      d = rng.choice(pool)
      ctx.expect(inv.lookup('absent', inv.raw_dict, d) is d and
                 inv.lookup('absent', 'raw_dict', d) is d and
                 inv.lookup('absent', 'no_such_dict') is ctrl.unk, 'lookup',
                 'not the default')
      ctx.saw('descriptions')
      shown = [s for i, s in sorted(m.index.items()) if s not in list(ctrl)]
      lines = [l for l in inv.description(False).split('\n')
               if l.startswith('### ')]
      want = ['### ' + s.description(False) for s in shown]
      if all('\n' not in w and '\r' not in w for w in want):
        ctx.expect(lines == want, 'description', 'wrong symbols', got=lines,
                   want=want)
      lines = [l for l in inv.description(False, True).split('\n')
               if l.startswith('### ')]
      ctx.expect(len(lines) == len(m.index), 'description',
                 'not all with controls')


def features(ctx, sym, ft):
  """add_features, set_attribute and feature_pair on symbols."""
  rng = ctx.rng
  Symbol, ctrl, f = sym.Symbol, sym.Symbol.CTRL, ft.Feature
  inv = f.Inventory(
      'inv', *[f.Aspect(f.equidistant(
          'asp%d' % i, *[f('v%d%d' % (i, j), 'val%d%d' % (i, j))
                         for j in range(4)])) for i in range(3)])
  other = f.Inventory('other', f.Aspect(f.linear('asp0', f('v00'), f('w'))))
  aspects = list(inv)
  values = {a.alias: [getattr(a, 'v%d%d' % (i, j)) for j in range(4)]
            for i, a in enumerate(aspects)}
  state = {}

  def new(alias):
    s = Symbol(alias, raw=rng.choice(['', 'r']))
    base = {a.alias: {rng.choice(values[a.alias] + [a.any, a.n_a])}
            for a in aspects if rng.random() < .6}
    s.features.new_profile(f.Profile(
        inv, 'p', *[x for v in base.values() for x in v]))
    state[s] = {a.alias: base.get(a.alias, {a.any}) for a in aspects}
    return s

  def same(s, mech):
    for a in aspects:
      ctx.expect(set(s.features.get(inv).get(a)) == state[s][a.alias], mech,
                 'wrong features', alias=s.alias, aspect=a.alias,
                 got=str(s.features.get(inv).get(a)))
    ctx.expect(not s.features.has_profile(other), mech, 'profile appeared')

  def add(s, fs):
    for a in aspects:
      got = {x for x in fs if x.aspect is a}
      if got:
        state[s][a.alias] = (state[s][a.alias] - {a.any}) | got

  pool = [new('s%d' % i) for i in range(5)]
  before = {c.alias: (str(c.features), set(vars(c))) for c in ctrl}
  everything = [x for v in values.values() for x in v]
  for _ in range(40):
    s = rng.choice(pool)
    fs = {rng.choice(everything) for _ in range(rng.randrange(4))}
    k = rng.randrange(4)
    if k == 0:
      ctx.saw('features')
      extra = [other.asp0.w] if rng.random() < .3 else []
      s.add_features(*rng.choice([
          [*fs, *extra], [list(fs) + extra], [f.Set(*fs), *extra]]))
      add(s, fs)
    elif k == 1:
      ctx.saw('features')
      value = rng.choice([5, 'five', None])
      t = rng.choice([s, s, rng.choice(list(ctrl))])
      t.set_attribute('numeric', value, *([fs] if fs else []))
      if t is s:
        ctx.expect(s.numeric is value, 'set_attribute', 'not set')
        add(s, fs)
    else:
      ctx.saw('pairs')
      t = rng.choice(pool + list(ctrl))
      u = rng.choice([s, s, s, rng.choice(list(ctrl))])
      a = rng.choice(aspects)
      one, two = rng.sample(values[a.alias], 2)
      kw = {}
      if rng.random() < .4:
        kw['add_aspect'] = rng.random() < .5
      if rng.random() < .4:
        kw['add_features'] = rng.random() < .5
      if u is t:
        continue
      u.feature_pair(t, one, two, **kw)
      for x, y, mine, its in ((u, t, one, two), (t, u, two, one)):
        if x.is_control():
          continue
        ctx.expect(getattr(x, mine.text, None) is x, 'feature_pair',
                   'not itself for its own feature')
        ctx.expect(getattr(x, its.text, None) is (
            ctrl.nos if y.is_control() else y), 'feature_pair',
                   'not the other for its feature', alias=x.alias)
        if kw.get('add_aspect', True):
          ctx.expect(getattr(x, a.text, None) is mine, 'feature_pair',
                     'the aspect is not set')
        if kw.get('add_features', True):
          add(x, {mine})
    for s in pool:
      same(s, 'features')
      for v in everything:
        ctx.expect(s.has_feature(v) == (v in state[s][v.aspect.alias]),
                   'has_feature', 'wrong', feature=v.alias)
  for c in ctrl:
    ctx.expect((str(c.features), set(vars(c))) == before[c.alias], 'control',
               'a control symbol changed', alias=c.alias)


# Phonemes and graphemes.


def profile_of(x):
  return {(p.inventory.alias, s.alias): frozenset(map(id, s))
          for p in x.features for s in p}


def ors(exp, inv, alias):
  """The symbols that the Or of a supplement of an inventory has."""
  return {tuple(id(s) for s in l) for l in inv.atomics.get(alias).symbols()}


def synced(ctx, inv, alias_lists, mech):
  for s in inv:
    ctx.saw('synced')
    a = inv.atomics.get(s.alias)
    if not ctx.expect(hasattr(a, 'symbol') and a.symbol is s and
                      a is not s, mech + ': atomic', 'not of the symbol',
                      alias=s.alias):
      continue
    ctx.expect(profile_of(a) == profile_of(s), mech + ': atomic features',
               'differ from those of the symbol', alias=s.alias)
  for alias, members in alias_lists.items():
    got = ors(None, inv, alias)
    ctx.expect(got == {(id(s),) for s in members}, mech + ': or',
               'not the members of the supplement', alias=alias)


def phonemes(ctx, ps, lang):
  rng = ctx.rng
  Phon = ps.Phon
  ftr = Phon.DESCRIPTIVE_FEATURES
  languages = [x for a in lang.FEATURES for x in a
               if not hasattr(x, '__len__')] or []
  languages = [getattr(Phon.LANGUAGE, n) for n in ('x_uni', 'en', 'hi', 'ta')
               if hasattr(Phon.LANGUAGE, n)]
  values = [x for a in (ftr.height, ftr.backness, ftr.voicing, ftr.manner)
            for x in [getattr(a, 'any')] + [
                y for y in a.root_list if isinstance(y, ps.ft.Feature)]]
  for _ in range(4):
    invs = []
    for l in rng.sample(languages, 2):
      invs.append((Phon.Inventory(l), l, Model(Phon.CTRL)))
      ctx.expect(invs[-1][0].language is l and invs[-1][0].alias == l.alias,
                 'phonemes', 'wrong language')
    pool = []
    for i in range(10):
      kw = {}
      if rng.random() < .6:
        kw['features'] = rng.choice([ftr.vowel, ftr.consonant])
      p = Phon(alias='p%d' % rng.randrange(8), ipa='i%d' % i,
               name='NAME %d' % i, **kw)
      for v in rng.sample(values, 2):
        p.update_descriptives(v)
      pool.append(p)
    for step in range(6):
      inv, l, m = rng.choice(invs)
      some = [rng.choice(pool) for _ in range(rng.randrange(1, 4))]
      alias = rng.choice(['', 'list%d' % step])
      was = {id(p): (p.language, p.index, p.alias, p.ipa, p.inventory)
             for p in pool}
      want = []
      for p in some:
        ctx.saw('phonemes')
        if p not in m.items and m.free(p.alias):
          m.items.append(p)
          m.aliases[p.alias] = p
          want.append(p)
      got = inv.add_phonemes(*some, list_alias=alias)
      ctx.expect(got == want, 'add_phonemes', 'wrong phonemes returned')
      if alias:
        m.suppls[alias] = list(want)
      for p in pool:
        language, index, al, ipa, home = was[id(p)]
        if p in want:
          at = m.items.index(p) + 1
          ctx.expect(p.language is l, 'phoneme: language',
                     'not of the inventory')
          ctx.expect(p.index == int(l.index) * 100 + 3_000_000 + at,
                     'phoneme: index', 'wrong', got=p.index, at=at)
          m.put(p)
          if home is Phon.Inventory.EMPTY:
            ctx.expect(p.inventory is inv, 'phoneme: inventory', 'wrong')
        else:
          ctx.expect((p.language, p.index, p.alias, p.ipa, p.inventory) ==
                     was[id(p)], 'phoneme: rejected', 'changed',
                     alias=p.alias)
      ctx.expect(len({inv.index_lookup(i) for i in m.index}) ==
                 len(m.index), 'phoneme: index', 'not unique')
      # Those which another inventory took over have an index of its own.
      n = Model(Phon.CTRL)
      n.items, n.aliases, n.suppls = m.items, m.aliases, m.suppls
      n.index = m.index
      agree(ctx, inv, n, Phon.CTRL, 'phonemes', [])
    ctx.case(('phonemes', [[p.alias for p in m.items]
                           for _, _, m in invs]), True)
    for inv, l, m in invs:
      lists = [inv.get(a) for a in m.suppls]
      first = [s for s in lists if len(s)]
      for s in first[:1]:
        inv.or_from_suppl(s)
        ctx.expect(ors(None, inv, s.alias) == {(id(x),) for x in s},
                   'or_from_suppl', 'wrong')
      for s in first:
        if m.items and rng.random() < .5:
          extra = rng.choice(m.items)
          s.add(extra)
      for p in m.items:
        if rng.random() < .6:
          p.update_descriptives(rng.choice(values))
      ctx.expect(inv.sync_atomics(first) is inv, 'sync_atomics',
                 'gives another')
      synced(ctx, inv, {s.alias: list(s) for s in first}, 'sync_atomics')
    for p in pool:
      ctx.saw('copies')
      kw = {}
      if rng.random() < .4:
        kw['alias'] = 'other'
      if rng.random() < .4:
        kw['ipa'] = 'ipa'
      if rng.random() < .3:
        kw['language'] = rng.choice(languages)
      c = p.copy(**kw)
      ctx.expect(c is not p and c.alias == kw.get('alias', p.alias) and
                 c.ipa == kw.get('ipa', p.ipa) and c.name == p.name and
                 c.language is kw.get('language', p.language),
                 'phoneme: copy', 'wrong fields', kw=list(kw))
      independent(ctx, rng, p, c, values, 'phoneme: copy')


def independent(ctx, rng, p, c, values, mech):
  before = profile_of(p)
  ctx.expect(profile_of(c) == before, mech, 'other features',
             alias=p.alias)
  for v in values:
    c.update_descriptives(v)
  ctx.expect(profile_of(p) == before, mech, 'shares its features',
             alias=p.alias)
  after = profile_of(c)
  q = rng.choice(values)
  kept = p.descriptives().copy('kept')
  p.update_descriptives(q)
  ctx.expect(profile_of(c) == after, mech, 'shares its features',
             alias=p.alias)
  p.descriptives().update(kept)


def graphemes(ctx, gr, lang):
  rng = ctx.rng
  G = gr.Grapheme
  grf, phf = G.GR_FEATURES, G.DESCRIPTIVE_FEATURES
  scripts = [getattr(grf.script, s) for s in ('latn', 'deva', 'und', 'br')]
  numbers = {'latn': 215, 'deva': 315, 'und': 800, 'br': 801}
  languages = [getattr(G.LANGUAGE, n) for n in ('en', 'hi', 'ta')
               if hasattr(G.LANGUAGE, n)]
  values = [phf.height.open, phf.height.any, phf.backness.back,
            phf.voicing.voiced, phf.manner.stop, phf.voicing.n_a]

  def char():
    k = rng.randrange(6)
    if k == 0:
      return chr(rng.randrange(0x20, 0x7f))
    if k == 1:
      return chr(rng.choice([0, 9, 0x7f, 0xad, 0xe000, 0x200d, 0x10ffff,
                             0xfffe, 0x10000]))
    while True:
      c = chr(rng.choice([rng.randrange(0x80, 0x3000),
                          rng.randrange(0x10000, 0x20000),
                          rng.randrange(0x3000, 0xd800)]))
      return c

  for _ in range(25):
    c = char()
    ctx.saw('chars')
    g = G.from_char(c)
    name = unicodedata.name(c, 'GRAPHEME') + ' U+%04X' % ord(c)
    ctx.case(('char', c))
    ctx.expect(g.text == c and g.raw == c and g.alias == 'u_0x%x' % ord(c)
               and g.index == 2_000_000 + ord(c) and g.name == name and
               g.has_feature(G.SYM_FEATURES.type.raw), 'from_char', 'wrong',
               char=c, got=g.description())
    fs = {grf.script.latn, rng.choice([grf.case.upper, grf.gr_class.number])}
    g = G.from_char(c, 'my_alias', fs)
    ctx.expect(g.alias == 'my_alias' and all(g.has_feature(x) for x in fs)
               and g.has_feature(G.SYM_FEATURES.type.raw) and
               not g.has_feature(grf.case.lower if grf.case.upper in fs
                                 else grf.gr_class.letter), 'from_char',
               'wrong features', char=c)
    ctx.expect(g.description() == 'alias: my_alias\traw: %s\tname: %s' % (
        c, name), 'grapheme: description', 'wrong', got=g.description())

  for _ in range(4):
    invs = []
    for j in range(2):
      s, l = rng.choice(scripts), rng.choice([None] + languages)
      inv = G.Inventory(s, l) if l else G.Inventory(s)
      ctx.expect(inv.alias == (l.alias + '_' if l else '') + s.alias and
                 inv.language is (l or G.LANGUAGE.x_uni) and
                 inv.script is s and
                 inv.prefix == 2_000_000 + 1000 * numbers[s.alias],
                 'graphemes', 'wrong inventory', alias=inv.alias)
      invs.append((inv, l or G.LANGUAGE.x_uni, Model(G.CTRL)))
    pool = []
    for i in range(10):
      c = rng.choice('abcdефгक')
      g = rng.choice([
          lambda: G.from_char(c, 'g%d' % rng.randrange(8)),
          lambda: G.from_char(c),
          lambda: G('g%d' % rng.randrange(8), text=c, index=i),
      ])()
      for v in rng.sample(values, 2):
        g.update_descriptives(v)
      pool.append(g)
    home = {}
    for step in range(8):
      inv, l, m = rng.choice(invs)
      k = rng.randrange(5)
      some = [rng.choice(pool) for _ in range(rng.randrange(1, 4))]
      alias = rng.choice(['', 'list%d' % step])
      if k < 2:
        want = []
        for g in some:
          ctx.saw('graphemes')
          if m.add(g, G, G.CTRL):
            want.append(g)
            home.setdefault(id(g), inv)
        got = inv.add_graphemes(*some, list_alias=alias)
        ctx.expect(got == want, 'add_graphemes', 'wrong graphemes returned')
        ctx.expect(all(g.language is l for g in got), 'grapheme: language',
                   'not of the inventory')
      elif k == 2:
        ctx.saw('imports')
        before = [(profile_of(g), g.language, g.inventory) for g in some]
        got = inv.import_graphemes(*some, list_alias=alias)
        taken = []
        for g in some:
          if m.free(g.alias) and g.alias not in [x.alias for x in taken]:
            taken.append(g)
        if not ctx.expect([g.alias for g in got] ==
                          [g.alias for g in taken], 'import_graphemes',
                          'wrong graphemes imported',
                          got=[g.alias for g in got]):
          return
        for g, c in zip(taken, got):
          ctx.expect(c is not g and m.add(c, G, G.CTRL), 'import_graphemes',
                     'not a copy')
          ctx.expect((c.text, c.raw, c.index, c.name) ==
                     (g.text, g.raw, g.index, g.name), 'import_graphemes',
                     'wrong fields')
          ctx.expect(c.language is l and c.inventory is inv,
                     'import_graphemes', 'not of the inventory')
          independent(ctx, rng, g, c, values, 'grapheme: copy')
        ctx.expect(before == [(profile_of(g), g.language, g.inventory)
                              for g in some], 'import_graphemes',
                   'changed the original')
        want = got
      elif k == 3:
        ctx.saw('imports')
        pairs, used = [], set()
        for _ in range(2):
          a, b = rng.sample(pool, 2)
          new = {a.alias, b.alias}
          if len(new) == 2 and not new & used and all(map(m.free, new)):
            used |= new
            pairs.append((a, b))
        two = rng.sample([grf.gr_class.letter, grf.gr_class.number], 2)
        suppl = rng.random() < .5 and all(m.free(x.alias) for x in two)
        inv.import_as_feature_pairs(
            *two, *pairs, **({} if suppl else
                             {'make_suppls_from_features': False}))
        for a, b in pairs:
          x, y = inv.get(a.alias), inv.get(b.alias)
          ctx.expect(m.add(x, G, G.CTRL) and m.add(y, G, G.CTRL) and
                     x is not a and y is not b, 'feature pairs',
                     'not imported')
          ctx.expect(getattr(x, two[1].text) is y and
                     getattr(y, two[0].text) is x and
                     getattr(x, two[0].text) is x and
                     x.has_feature(two[0]) and y.has_feature(two[1]),
                     'feature pairs', 'not a pair', alias=a.alias)
          ctx.expect(not hasattr(a, two[1].text) and
                     profile_of(a) != None, 'feature pairs',
                     'changed the original')
        if suppl:
          m.suppls[two[0].alias] = [inv.get(a.alias) for a, _ in pairs]
          m.suppls[two[1].alias] = [inv.get(b.alias) for _, b in pairs]
        alias = ''
      else:
        ctx.saw('unknown')
        c = char()
        taken = not m.free('u_0x%x' % ord(c))
        g = inv.raw_from_unknown(c)
        if taken:
          ctx.expect(g is G.CTRL.nor, 'grapheme: unknown', 'added again')
        else:
          ctx.expect(m.add(g, G, G.CTRL) and g.raw == c, 'grapheme: unknown',
                     'not added')
        alias = ''
      if alias:
        m.suppls[alias] = list(want)
      for inv, l, m in invs:
        agree(ctx, inv, m, G.CTRL, 'graphemes', [888, 'absent'])
      for g in pool:
        if id(g) in home:
          ctx.expect(g.inventory is home[id(g)], 'grapheme: inventory',
                     'not the one it is first defined in', alias=g.alias)
    ctx.case(('graphemes', [[g.alias for g in m.items]
                            for _, _, m in invs]), True)
    for inv, l, m in invs:
      for g in m.items:
        if rng.random() < .5:
          g.update_descriptives(rng.choice(values))
      inv.sync_atomics()
      synced(ctx, inv, {}, 'sync_atomics')


# Operations and lattices.


def operations(ctx, op, own):
  rng = ctx.rng
  O = op.Operation
  for _ in range(12):
    prefix = rng.choice([100, 200, 300])
    args = [('op%d' % i, rng.choice([0, .1, .125, 1, 1.25, 10]))
            for i in range(rng.randrange(1, 25))]
    inv = O.Inventory.from_args('ops', prefix, *args)
    check_operations(ctx, O, inv, 'ops', prefix, args)
    ctx.case(('operations', prefix, args), len(args) > 1)
    more = O.Inventory.from_args('more', 300, *[
        ('new%d' % i, i) for i in range(rng.randrange(1, 4))])
    old = list(inv)
    inv.add_operations(*more)
    ctx.expect(list(inv) == old + list(more) and
               all(o.inventory is more for o in more) and
               all(o.inventory is inv for o in old), 'add_operations',
               'wrong')
    ctx.expect(str(inv).splitlines() == [
        '%s (%.3f)' % a for a in args] + [
            '%s (%.3f)' % (o.alias, o.base_cost) for o in more
            if not o.alias.startswith(('partial', 'unexpected'))],
               'operations: str', 'wrong', got=str(inv))
    for _ in range(10):
      a, b = rng.choice(old), rng.choice(list(more))
      ctx.expect(a.is_cheaper_than(b) == (a.base_cost < b.base_cost) and
                 a.is_free() == (a.base_cost == 0) and a.is_assigned(),
                 'operation: cost', 'wrong')


def check_operations(ctx, O, inv, alias, prefix, args):
  names = [p + a for a, _ in args for p in (
      '', 'partial_', 'unexpected_', 'unexpected_partial_')]
  if not ctx.expect(inv.alias == alias and sorted(
      o.alias for o in inv) == sorted(names), 'operations', 'wrong ones',
                    got=[o.alias for o in inv]):
    return
  for a, cost in args:
    m, p, u, up = (inv.get(x + a) for x in (
        '', 'partial_', 'unexpected_', 'unexpected_partial_'))
    for o, mm, pp, uu, c in ((m, m, p, u, cost), (p, m, p, up, cost),
                             (u, m, up if False else p, u, cost + .75),
                             (up, m, up, up, cost + .75)):
      ctx.saw('operations')
      ctx.expect(o.match is mm, 'operation: match', 'wrong', alias=o.alias)
      ctx.expect(abs(o.base_cost - c) < 1e-9, 'operation: cost', 'wrong',
                 alias=o.alias, got=o.base_cost)
      ctx.expect(o.inventory is inv, 'operation: inventory', 'wrong')
      ctx.expect(str(o) == '%s (%.3f)' % (o.text, c), 'operation: str',
                 'wrong', got=str(o))
      # However they are combined, both are applied.
      ctx.expect(o.partial.unexpected is up and
                 o.unexpected.unexpected is o.unexpected and
                 o.partial.partial is o.partial and o.match.partial is p and
                 o.match.unexpected is u, 'operation: closure', 'wrong',
                 alias=o.alias)
    ctx.expect(m.partial is p and m.unexpected is u and p.partial is p and
               p.unexpected is up and up.partial is up and
               up.unexpected is up and u.unexpected is u and
               u.partial is up, 'operation: derived',
               'wrong', alias=a, got=[u.partial.alias])
  indices = [o.index for o in inv]
  ctx.expect(indices == sorted(set(indices)) and
             all(i % 10 and i > prefix for i in indices), 'operation: index',
             'not increasing or ends in 0', got=indices)
  ctx.expect(indices == [prefix + i for i in range(1, 1000) if i % 10][
      :len(indices)], 'operation: index', 'not the next', got=indices)
  for o in inv:
    ctx.expect(inv.index_lookup(o.index) is o, 'operation: lookup', 'wrong')
  for i in (0, prefix, prefix + 10, max(indices) + 1, -1):
    ctx.expect(inv.index_lookup(i) is O.COMMON.error, 'operation: lookup',
               'not the error', index=i)


def lattices(ctx, la, ty, pyn):
  rng = ctx.rng
  for _ in range(12):
    fst = rng.choice([None, pyn.Fst()])
    free = rng.randrange(3)
    if fst is not None:
      for _ in range(free):
        fst.add_state()
    made, all_states = [], []
    for k in range(rng.choice([1, 2, 2])):
      w, h = rng.randrange(1, 6), rng.randrange(1, 6)
      populate = rng.random() < .4
      kw = {'populate': True} if populate else {}
      shared = made and rng.random() < .3 and fst is not None
      if fst is not None:
        kw['fst'] = fst
      if shared:
        kw['error'] = made[0][0].error
      l = la.Lattice('l%d' % k, w, h, **kw)
      ctx.saw('lattices')
      ctx.case(('lattice', w, h, populate, fst is None, k), w * h > 1)
      if shared:
        ctx.expect(l.error is made[0][0].error, 'lattice: error',
                   'not the given one')
      else:
        ctx.expect(all(l.error is not o.error for o, _, _, _ in made),
                   'lattice: error', 'shared with another lattice')
      if fst is None:
        ctx.expect(all(l.fst is not o.fst for o, _, _, _ in made),
                   'lattice: fst', 'shared with another lattice')
      else:
        ctx.expect(l.fst is fst, 'lattice: fst', 'not the given one')
      states = {}
      if populate:
        for x in range(w):
          for y in range(h):
            states[x, y] = l.node(x, y).state
      made.append((l, w, h, states))
    for _ in range(40):
      l, w, h, states = rng.choice(made)
      ctx.saw('states')
      x, y = rng.randrange(-2, w + 2), rng.randrange(-2, h + 2)
      inside = 0 <= x < w and 0 <= y < h
      n = l.node(x, y)
      if not inside:
        ctx.expect(n is l.error and l.state(x, y) == l.error.state,
                   'lattice: bounds', 'not the error node', x=x, y=y)
        continue
      ctx.expect(n is not l.error and (n.x, n.y) == (x, y) and n.fst is l.fst,
                 'lattice: node', 'wrong')
      ctx.expect(n.has_state() == ((x, y) in states), 'lattice: state',
                 'appeared')
      before = l.fst.num_states()
      s = rng.choice([lambda: l.state(x, y), lambda: l.state_of(n)])()
      if (x, y) in states:
        ctx.expect(s == states[x, y], 'lattice: state', 'changed')
        ctx.expect(l.fst.num_states() == before, 'lattice: state',
                   'state was added')
      else:
        ctx.expect(0 <= s < l.fst.num_states() and
                   l.fst.num_states() == before + 1, 'lattice: state',
                   'not a new state of the FST')
        states[x, y] = s
    seen = {}
    for l, w, h, states in made:
      mine = seen.setdefault(id(l.fst), {})
      for where, s in list(states.items()):
        ctx.expect(s not in mine, 'lattice: state', 'used twice')
        mine[s] = where
      ctx.expect(l.error.has_state() and mine.get(l.error.state, 'error') ==
                 'error', 'lattice: error', 'has the state of a node')
      mine[l.error.state] = 'error'
      rows = [[str(states.get((x, y), '∅')) for x in range(w)]
              for y in range(h)]
      want = 'Lattice: %s\nStates:\n%s\n' % (
          l.alias, '\n'.join('\t'.join(r) for r in rows))
      ctx.expect(l.states_str() == want, 'lattice: states_str', 'wrong',
                 got=l.states_str())
      rows = [['%s(%d,%d)' % (l.alias, x, y) for x in range(w)]
              for y in range(h)]
      want = 'Lattice: %s\nNodes:\n%s\n' % (
          l.alias, '\n'.join('\t'.join(r) for r in rows))
      ctx.expect(l.nodes_str() == want, 'lattice: nodes_str', 'wrong',
                 got=l.nodes_str())
    for l, _, _, _ in made:
      extra = free if fst is not None else 0
      ctx.expect(l.fst.num_states() == len(seen[id(l.fst)]) + extra,
                 'lattice: fst', 'has other states')


# What ships.

HEIGHTS = ('open', 'near_open', 'open_mid', 'mid', 'close_mid', 'near_close',
           'close')
BACKS = {'front': 'front', 'near_front': 'near_front', 'center': 'central',
         'near_back': 'near_back', 'back': 'back'}
PLACES = {  # Name: places, all of which or some of which; articulators.
    'bilabial': ({'labial'}, {'labial'}),
    'labiodental': ({'dental'}, {'labial'}),
    'dental': ({'dental'}, {'apical'}),
    'alveolar': ({'dental', 'alveolar', 'postalveolar'},
                 {'apical', 'laminal'}),
    'postalveolar': ({'postalveolar'}, {'laminal'}),
    'retroflex': ({'postalveolar', 'palatal'}, {'apical'}),
    'palatal': ({'palatal'}, {'apical', 'laminal', 'dorsal'}),
    'velar': ({'velar'}, {'dorsal'}),
    'uvular': ({'uvular'}, {'dorsal'}),
    'pharyngeal': ({'epiglottal'}, {'laryngeal'}),
    'epiglottal': ({'epiglottal'}, {'laryngeal'}),
    'glottal': ({'glottal'}, {'laryngeal'}),
    'labial-palatal': ({'palatal'}, {'apical', 'laminal', 'dorsal'}),
    'labial-velar': ({'velar'}, {'dorsal'}),
    'palatal-velar': ({'velar'}, {'dorsal'})}
MANNERS = {'stop': 'stop', 'nasal': 'stop', 'trill': 'trill', 'flap': 'tap',
           'tap': 'tap', 'approximant': 'approximant'}


def shipped(ctx):
  from nisaba.scripts.natural_translit.language_params import en
  from nisaba.scripts.natural_translit.phonology.inventories import x_uni
  from nisaba.scripts.natural_translit.script.inventories import latn as la
  from nisaba.scripts.natural_translit.utils import operation as op
  ph = x_uni.PHONEMES
  seen = {}
  for p in ph:
    ctx.saw('shipped phonemes')
    ctx.case(('phoneme', p.ipa))
    words = p.name.replace('\xad', '').split()
    has = {s.alias: {f.alias for f in s} for s in p.descriptives()}

    def expect(aspect, want, mech='phoneme'):
      ctx.expect(has[aspect] == set(want), 'shipped ' + mech,
                 'the features are not those of its name', ipa=p.ipa,
                 name=p.name, aspect=aspect, got=sorted(has[aspect]))

    if 'vowel' in words:
      expect('ph_class', ['vowel'])
      expect('height', [w for w in words if w in HEIGHTS])
      expect('backness', [BACKS[w] for w in words if w in BACKS])
      # /eo/, /iu/ and /ɘ/ … are stated only where they are.
      want = [w for w in words if w in ('rounded', 'unrounded')]
      if has['labialization'] != {'any'}:
        expect('labialization', want)
      elif want == ['rounded']:
        ctx.violate('shipped phoneme', 'not rounded', ipa=p.ipa, name=p.name)
      expect('voicing', ['voiced'])
      expect('syllabicity', ['syllabic'])
      expect('nasalization', ['none'])
      for a in ('manner', 'place', 'articulator', 'lateralization'):
        expect(a, ['n_a'])
    else:
      expect('ph_class', ['consonant'])
      expect('height', ['n_a'])
      expect('backness', ['n_a'])
      expect('syllabicity', ['none'])
      place = [w for w in words if w in PLACES]
      if not ctx.expect(len(place) == 1, 'shipped phoneme', 'no place',
                        name=p.name):
        continue
      where, by = PLACES[place[0]]
      ctx.expect(has['place'] and (
          has['place'] <= where if place == ['alveolar'] else
          has['place'] == where), 'shipped phoneme',
                 'the place is not that of its name', ipa=p.ipa, name=p.name,
                 got=sorted(has['place']))
      ctx.expect('alveolar' in has['place'] or place != ['alveolar'],
                 'shipped phoneme', 'not alveolar', ipa=p.ipa)
      expect('articulator', by)
      if 'fricative' in words:
        sibilant = 'sibilant' in words and 'non-sibilant' not in words
        expect('manner', ['sibilant' if sibilant else 'non_sibilant'])
      else:
        expect('manner', {MANNERS[w] for w in words if w in MANNERS})
      for w in ('voiced', 'voiceless'):
        if w in words:
          expect('voicing', [w])
      expect('nasalization', ['nasalized' if 'nasal' in words else 'none'])
      if 'nasal' in words:
        expect('voicing', ['voiced'])
      expect('lateralization', ['lateral' if 'lateral' in words else 'none'])
      labial = place[0].startswith(('labi', 'bilabial'))
      expect('labialization', ['labialized' if labial else 'none'])
      expect('palatalization', [
          'heavy' if 'palatal' in place[0] else
          'light' if place == ['postalveolar'] else 'none'])
    key = (tuple(sorted((a, tuple(sorted(v))) for a, v in has.items())))
    ctx.expect(p.ipa not in seen, 'shipped phoneme', 'IPA recurs', ipa=p.ipa)
    seen[p.ipa] = key
    ctx.expect(p.language is ph.language and p.inventory is ph,
               'shipped phoneme', 'not of the inventory')
  members = [p for p in ph]
  ctx.expect([p.index for p in members] == [
      3_000_000 + int(ph.language.index) * 100 + i + 1
      for i in range(len(members))], 'shipped phonemes', 'wrong indices')
  ctx.expect(list(ph.vowel) + list(ph.consonant) == members and
             all('vowel' in p.name for p in ph.vowel), 'shipped phonemes',
             'neither vowels nor consonants')
  synced(ctx, ph, {}, 'shipped phonemes')

  grf = la.grapheme.Grapheme.GR_FEATURES
  phf = la.grapheme.Grapheme.DESCRIPTIVE_FEATURES
  digits = 'zero one two three four five six seven eight nine'.split()
  letters = 'abcdefghijklmnopqrstuvwxyz'
  for inv, vowels in ((la.LATN, 'aeiou'), (en.LATN, 'aeiouy')):
    for c in letters:
      for case, char, alias in (('lower', c, c),
                                ('upper', c.upper(), c + '_upper')):
        ctx.saw('shipped graphemes')
        ctx.case(('grapheme', inv.alias, char))
        g = inv.get(alias)
        h = inv.get(c + '_upper' if case == 'lower' else c)
        if not ctx.expect(getattr(g, 'raw', None) == char and g.text == char
                          and inv.raw_lookup(char) is g and
                          g.index == 2_000_000 + ord(char),
                          'shipped grapheme', 'wrong', char=char):
          continue
        ctx.expect(g.lower is (g if case == 'lower' else h) and
                   g.upper is (g if case == 'upper' else h),
                   'shipped grapheme', 'not a pair', char=char)
        ctx.expect(set(g.features.get(grf).case) == {
            getattr(grf.case, case)} and g.case is getattr(grf.case, case),
                   'shipped grapheme', 'wrong case', char=char)
        ctx.expect(g.has_feature(grf.script.latn) and
                   not g.has_feature(grf.script.deva) and
                   g.has_feature(grf.gr_class.letter) and
                   not g.has_feature(grf.gr_class.number),
                   'shipped grapheme', 'wrong class', char=char)
        ctx.expect((g in inv.vowel) == (c in vowels) and
                   (g in inv.consonant) == (c not in 'aeiou') and
                   (g in inv.upper) == (case == 'upper') and
                   (g in inv.lower) == (case == 'lower') and
                   g in inv.letter and g not in inv.number,
                   'shipped grapheme', 'in the wrong lists', char=char)
        ctx.expect(g.language is inv.language and g.inventory is inv,
                   'shipped grapheme', 'not of the inventory', char=char)
        ctx.expect(g.descriptives() is not h.descriptives() and
                   {s.alias: set(s) for s in g.descriptives()} ==
                   {s.alias: set(s) for s in h.descriptives()},
                   'shipped grapheme', 'cases are pronounced differently',
                   char=char)
    for i, d in enumerate(digits):
      ctx.saw('shipped graphemes')
      g = inv.get(d)
      ctx.expect(getattr(g, 'raw', None) == str(i) and g in inv.number and
                 inv.raw_lookup(str(i)) is g and g.inventory is inv and
                 g.has_feature(grf.gr_class.number) and
                 not g.has_feature(grf.gr_class.letter) and
                 g.language is inv.language and
                 not g.has_feature(phf.ph_class.vowel), 'shipped digit',
                 'wrong', digit=d)
    ctx.expect(len(inv) == 62 and len({g.index for g in inv}) == 62,
               'shipped graphemes', 'wrong number', got=len(inv))
    ctx.expect([g.raw for g in inv.parse('Nisaba 1?')] == list('Nisaba 1?'),
               'shipped graphemes: parse', 'wrong')
  for g in la.LATN:
    e = en.LATN.get(g.alias)
    ctx.expect(e is not g and e.descriptives() is not g.descriptives(),
               'shipped grapheme', 'shared', alias=g.alias)
  lists = ('upper', 'lower', 'letter', 'vowel', 'consonant', 'number')
  for inv in (la.LATN, en.LATN):
    if len(inv) == 62 or inv.parse('x'):
      unknown = [g for g in inv if g.alias.startswith('u_')]
      for g in unknown:
        ctx.expect(g.index == 2_000_000 + ord(g.raw), 'shipped graphemes',
                   'wrong index', alias=g.alias)
    synced(ctx, inv, {x: list(inv.get(x)) for x in lists},
           'shipped graphemes')

  O = op.Operation
  costs = [('alignable', 0), ('boundary', .125), ('deletion', 1),
           ('error', 100), ('identity', .1), ('insertion', 1),
           ('interchangeable', .1), ('punctuation', .25),
           ('substitution', 1.25), ('unassigned', 10)]
  ctx.saw('common operations', len(O.COMMON))
  for a, c in costs:
    o = O.COMMON.get(a)
    ctx.expect(abs(getattr(o, 'base_cost', -9) - c) < 1e-9,
               'common operations', 'wrong cost', alias=a)
    ctx.expect(o.is_assigned() == (a not in ('error', 'unassigned')),
               'common operations', 'is_assigned is wrong', alias=a)
    ctx.expect(o.is_free() == (c == 0), 'common operations',
               'is_free is wrong', alias=a)
  check_operations(ctx, O, O.COMMON, 'common_operations', 100,
                   [(o.alias, o.base_cost) for o in O.COMMON
                    if not o.alias.startswith(('partial', 'unexpected'))])


def work(ctx, shard):
  if shard == 'shipped':
    shipped(ctx)
    return
  import pynini as pyn
  from nisaba.scripts.natural_translit.phonology import phonological_symbol as ps
  from nisaba.scripts.natural_translit.phonology.features import language as lang
  from nisaba.scripts.natural_translit.script import grapheme as gr
  from nisaba.scripts.natural_translit.utils import feature as ft
  from nisaba.scripts.natural_translit.utils import inventory
  from nisaba.scripts.natural_translit.utils import lattice as la
  from nisaba.scripts.natural_translit.utils import operation as op
  from nisaba.scripts.natural_translit.utils import symbol as sym
  from nisaba.scripts.natural_translit.utils import type_op as ty
  for _ in range(ctx.n(6, 60)):
    things(ctx, ty, pyn)
    iterables(ctx, ty)
    inventories(ctx, ty, inventory)
    for _ in range(3):
      symbols(ctx, sym, ft, ty)
    for _ in range(2):
      features(ctx, sym, ft)
      phonemes(ctx, ps, lang)
    for _ in range(4):
      graphemes(ctx, gr, lang)
    operations(ctx, op, ctx.rng)
    lattices(ctx, la, ty, pyn)
