"""A reference model of deromanization: [a-z]* to ISO and native scripts."""

import natural as N

_LTN = {x: N.tok('<%s>' % x) for x in 'abcdefghijklmnopqrstuvwxyz'}
_VOW = '[%s]' % ''.join(_LTN[x] for x in 'aeiou')
_ALLTYP = [c[0] for g in N._CH.values() for c in g]
_GLYPH = {c[0]: c[1] for g in N._CH.values() for c in g}
_TR = {t: N.tok('`%s`' % t) for t in _ALLTYP}
_TYP = {v: k for k, v in _TR.items()}


def _cls(*typs):
  return '[%s]' % ''.join(_TR[t] for t in typs)


_SCH = _cls(*[c[0] for g in ('SIMPLE_CONSONANT', 'ASPIRATED_CONSONANT')
              for c in N._CH[g]])
_ONSET = _cls(*[c[0] for g in ('SIMPLE_CONSONANT', 'ASPIRATED_CONSONANT',
                               'DEAD_CONSONANT') for c in N._CH[g]])
_VS = _cls(*N._VSIGN)


def _l(s):
  return ''.join(_LTN[x] for x in s)


def _t(*typs):
  return ''.join(_TR[t] for t in typs)


LONG = dict(a='aa', e='ee', i='ii', o='oo', u='uu')
ASP = {x: x + 'h' for x in 'bcdgjkpt'}
VIR = _t('vir')


class Vowel:

  def __init__(self, rom, brh):
    self.rom, self.brh = rom, brh
    self.f = {'rom': [_l(rom)], 'rom_l': [_l(rom * 2)], 'brh': _t(brh),
              'brh_i': _t(brh + '_i')}
    if brh in LONG:
      self.f['brh_l'] = _t(LONG[brh])
      self.f['brh_l_i'] = _t(LONG[brh] + '_i')
    self.rank = len(rom)
    self.high = False


class Cons:

  def __init__(self, rom, *brh, frg=None, high=False):
    b = _t(*brh)
    r = [_l(rom)]
    gem = [_l(rom * 2)] + ([_l(rom[0] + rom)] if len(rom) > 1 else [])
    self.f = {'rom': r, 'rom_l': gem, 'rom_h': [_l(rom + 'h')],
              'brh': b, 'brh_v': b + VIR, 'brh_l': b + VIR + b,
              'brh_l_v': b + VIR + b + VIR}
    if len(brh) == 1 and brh[0] in ASP:
      a = _t(ASP[brh[0]])
      self.f.update({
          'rom_l_h': [g + _l('h') for g in gem],
          'rom_h_l': [_l((rom + 'h') * 2)],
          'brh_asp': a, 'brh_asp_v': a + VIR, 'brh_l_asp': b + VIR + a,
          'brh_asp_l': a + VIR + a, 'brh_asp_l_v': a + VIR + a + VIR})
    if frg:
      f = _t(frg)
      self.f.update({'frg': f, 'frg_v': f + VIR, 'frg_l': f + VIR + f,
                     'frg_l_v': f + VIR + f + VIR})
    self.rank = len(rom) + high
    self.high = high


def _fields(items, old, new, left=None, right=None):
  ops = [(o, m.f[new]) for m in items for o in m.f[old]]
  return [N.Rule(ops, left, right)] if ops else []


def _ranks(items):
  for r in sorted({m.rank for m in items}, reverse=True):
    yield [m for m in items if m.rank == r]


def _vowel(items, old, new):
  return (_fields(items, old, new, _SCH) + _fields(items, old, new + '_i'))


def _cons(items, old, new, deletes, single=True):
  r = []
  for o, n in [(old + '_l', new + '_l')] + [(old, new)] * single:
    if deletes:
      r += _fields(items, o, n)
    else:
      r += _fields(items, o, n, right=_VOW) + _fields(items, o, n + '_v')
  return r


class Deromanizer:

  def __init__(self, deletes, mono, always_long, diph, asp, drops, none, gem,
               foreign, nasal, native):
    self.native = native
    cons = asp + drops + none + gem + foreign
    first, rules = [], []

    def add(items, make):
      for ms in _ranks(items):
        first.extend(make([m for m in ms if m.high]))
        rules.extend(make([m for m in ms if not m.high]))
    if nasal:
      rules += [
          N.rule(_l('m'), _t('ans'), _VOW, '[%s]' % _l('bp')),
          N.rule(_l('n'), _t('ans'), _VOW,
                 '(?:[%s]|%s)' % (_l('bcdfghjklpqrstvwxyz'), N.EOW))]
    add(foreign, lambda m: _cons(m, 'rom', 'frg', deletes))
    add(drops, lambda m: _cons(m, 'rom_h', 'brh', deletes))
    add(asp, lambda m: (_fields(m, 'rom_l_h', 'brh_l_asp') if deletes else [])
        + _cons(m, 'rom_h', 'brh_asp', deletes))
    add(gem, lambda m: _cons(m, 'rom', 'brh', deletes, single=False))
    add(cons, lambda m: _cons(m, 'rom', 'brh', deletes))
    rules += _vowel(mono, 'rom_l', 'brh_l')
    rules += _vowel(diph, 'rom', 'brh')
    rules += _vowel(always_long, 'rom', 'brh_l')
    rules += _vowel(mono, 'rom', 'brh')
    if deletes:
      rules += [N.rule('', VIR, N.BOW + _SCH, _ONSET),
                N.rule(_t('a'), _t('aa'), right=N.EOW),
                N.rule('', VIR, _SCH, _ONSET + N.EOW)]
    self.rules = first + rules
    self.to_iso = [
        N.rule('', _t('a'), _SCH),
        N.rule(_t('a'), '', right='(?:%s|%s)' % (_VS, VIR))]
    ops = [(m.f['brh_l_i'], m.f['brh_l']) for m in mono]
    self.to_iso.append(N.Rule(ops, N.BOW))
    for ms in _ranks(mono + diph):
      self.to_iso.append(N.Rule([(m.f['brh_i'], m.f['brh']) for m in ms],
                                N.BOW))

  def __call__(self, word, fired=None):
    """The ISO and the native results."""
    if any(c not in _LTN for c in word):
      return set(), set()
    typs = N.run(self.rules, {_l(word)}, fired)
    iso = N.run(self.to_iso, typs, fired)
    return (_print(iso, _GLYPH), _print(typs, self.native))


def _print(texts, table):
  r = set()
  for t in texts:
    if all(c in _TYP and _TYP[c] in table for c in t):
      r.add(''.join(table[_TYP[c]] for c in t))
  return r

_B = [x.split() for x in '''
vir \u094d \u0bcd|a - -|a_i अ அ|aa ा ா|aa_i आ ஆ|e ॆ ெ|e_i ऎ எ|ee े ே|ee_i ए ஏ
i ि ி|i_i इ இ|ii ी ீ|ii_i ई ஈ|o ॊ ொ|o_i ऒ ஒ|oo ो ோ|oo_i ओ ஓ|u ु ு|u_i उ உ
uu ू ூ|uu_i ऊ ஊ|ai ै ை|ai_i ऐ ஐ|au ौ ௌ|au_i औ ஔ|b ब -|bh भ -|c च ச|ch छ -
d द -|dh ध -|g ग -|gh घ -|h ह ஹ|j ज ஜ|z ज़ ஃஜ|jh झ -|k क க|kh ख -|l ल ல
lr - ழ|m म ம|n न ந|na - ன|p प ப|ph फ -|f फ़ ஃப|r र ர|rr - ற|s स ஸ|sh श ஶ
t त த|th थ -|v व வ|y य ய|ans ं -'''.strip().replace('\n', '|').split('|')]
DEVA = {a: '' if d == '-' else d for a, d, _ in _B}
TAML = {a: '' if t == '-' else t for a, _, t in _B}

_MONO = [Vowel(x, x) for x in 'aeiou']
_AI_AU = [Vowel('ai', 'ai'), Vowel('au', 'au')]
_KS = Cons('x', 'k', 'vir', 's')


def _simple(*xs):
  return [Cons(*x.split('=')) if '=' in x else Cons(x, x) for x in xs]


_PLAIN = _simple('c', 'h', 'l', 'm', 'n', 'q=k', 'r', 's', 'sh', 'v', 'w=v',
                 'y') + [_KS]
_FZ = [Cons('f', 'ph', frg='f'), Cons('z', 'j', frg='z')]
HI = Deromanizer(
    True, _MONO, [v for v in _MONO if v.rom in 'eo'], _AI_AU,
    _simple('b', 'ch=c', 'd', 'g', 'j', 'k', 'p', 't'), [], _PLAIN, [], _FZ,
    True, DEVA)
TA = Deromanizer(
    False, _MONO, [], _AI_AU + [Vowel('ae', 'ee'), Vowel('oa', 'oo')],
    [], _simple('b=p', 'ch=c', 'd=t', 'g=k', 'j', 'k', 'p', 't'),
    _PLAIN + [Cons('zh', 'lr', high=True)], [Cons('tr', 'rr')], _FZ, False,
    TAML)
