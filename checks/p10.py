"""P10: NFC and reversible romanization of Arabic-script text."""

import itertools
import unicodedata

import abjad as A
import brahmic as B
import fstio as F
import nbuild
import refmodel as R

LABELS = lambda: ['//nisaba/scripts/abjad_alphabet:%s%s.far' % (x, y)
                  for x in ('nfc', 'reversible_roman')
                  for y in ('', '_utf8')] + [
                      '//nisaba/scripts/abjad_alphabet:py_api'
                  ] + nbuild.tsvs('nisaba/scripts/abjad_alphabet')
RULE = ('texts of Arabic-script letters and marks: all of up to two '
        'characters, and random ones of 3-10, rich in (de)composable '
        'sequences; a case is (converter, text), non-trivial when it has two '
        'or more characters')
ASSUMPTIONS = ['the oracle is unicodedata.normalize, and for romanization the '
               'letter values recorded in data/abjad.json',
               'canonical reordering is documented as partial: NFC is decided '
               'for texts whose marks are in canonical order, and for the '
               'pairs of marks listed in the tables']
SCALE = 3  # Of the quick tier.
REQUIRED = {'nfc': 40000, 'ordered': 30000, 'pairs': 15, 'utf8': 10000,
            'round_trip': 15000, 'letters': 350, 'api': 1500}


def shards(tier):
  return ['nfc%d' % i for i in range(4)] + ['roman%d' % i for i in range(3)
                                            ] + ['api']


def contiguous(w):
  """Whether marks that compose directly follow what they compose with."""
  return B.adjacent_nfc(w) == B.nfc(w)


def work(ctx, shard):
  {'n': nfc, 'r': roman, 'a': api}[shard[0]](ctx, shard)


def nfc(ctx, shard):
  rng = ctx.rng
  part = int(shard[3:])
  f, u = (F.fst(F.AB + 'nfc' + x, 'ARAB') for x in ('', '_utf8'))
  core = [c for c in A.sigma() if 0x600 <= ord(c) < 0x900 or
          0xfb50 <= ord(c) < 0xff00]
  letters = [c for c in core if ord(c) < 0xfb00]
  marks = [c for c in core if unicodedata.combining(c)]
  dec = [c for c in letters if B.nfd(c) != c]
  seq = [B.nfd(c) for c in dec]
  listed = {x for c in ('nfc',) for x in
            [(a[0], a[1]) for a, b in A.rules(c) if len(a) == 2 and
             sorted(a) == sorted(b)]} | {tuple(x) for x in
                                         A.recorded()['pairs']}
  if part == 0:
    for a, b in listed:
      ctx.saw('pairs')
      for l in ('', '\u0628', '\u0627'):
        w = l + a + b
        ctx.case(('pair', w), True, sample=ascii(w))
        ctx.expect(F.best(f, w) == B.nfc(w), 'pair:%s' % B.name(a + b),
                   'a listed pair of marks is not put in canonical order',
                   text=ascii(w), got=ascii(F.best(f, w)))

  def one(w, utf8):
    ctx.case(('nfc', w), len(w) > 1, sample=ascii(w))
    ctx.saw('nfc')
    o = F.outputs(f, w, n=2)
    if len(o) != 1:
      ctx.violate('nfc:outputs', 'not exactly one result', text=ascii(w),
                  out=ascii(o))
      return
    g = o[0][0]
    if B.nfc(g) != B.nfc(w):
      ctx.violate('nfc:not-equivalent', 'the result is not canonically '
                  'equivalent to the text', text=ascii(w), got=ascii(g))
    if not B.disorder(w) and contiguous(w):
      ctx.saw('ordered')
      ctx.expect(g == B.nfc(w), 'nfc:not-nfc', 'the result is not the NFC',
                 text=ascii(w), got=ascii(g), want=ascii(B.nfc(w)))
      h = F.best(f, g)
      ctx.expect(h == g, 'nfc:unstable', 'normalizing twice differs from once',
                 text=ascii(w), once=ascii(g), twice=ascii(h))
    if utf8:
      ctx.saw('utf8')
      o8 = F.outputs(u, w, 'utf8', 2)
      ctx.expect([x for x, _ in o8] == [g], 'nfc:utf8', 'byte and UTF-8 '
                 'grammars differ', text=ascii(w), byte=ascii(g),
                 utf8=ascii(o8))

  for i, a in enumerate(core):
    if i % 4 == part:
      one(a, True)
      if a in letters:
        for b in letters:
          if ctx.thorough or b in marks or rng.random() < .3:
            one(a + b, rng.random() < .1)
  for _ in range(ctx.n(5000, 60000)):
    w = ''.join(rng.choice(rng.choice([letters, marks, dec, seq, core]))
                for _ in range(rng.randint(2, 7)))
    one(w, rng.random() < .3)
    one(B.nfd(w), rng.random() < .3)


def roman(ctx, shard):
  rng = ctx.rng
  fr, to = (F.fst(F.AB + 'reversible_roman', x)
            for x in ('FROM_ARAB', 'TO_ARAB'))
  fr8, to8 = (F.fst(F.AB + 'reversible_roman_utf8', x)
              for x in ('FROM_ARAB', 'TO_ARAB'))
  value = A.recorded()['roman']
  letters = list(dict.fromkeys(list(value) + [
      a for a, _ in A.rules('reversible_roman')]))
  dec = [a for a in letters if B.nfd(a) != a]

  def one(w, utf8):
    ctx.case(('roman', w), len(w) > 1, sample=ascii(w))
    ctx.saw('round_trip')
    o = F.outputs(fr, w, n=2)
    if len(o) != 1:
      ctx.violate('roman:outputs', 'not exactly one romanization',
                  text=ascii(w), out=ascii(o))
      return
    r = o[0][0]
    bad = [c for c in r if 0x600 <= ord(c) < 0x900 or ord(c) >= 0xfb50]
    ctx.expect(not bad, 'roman:leak', 'native characters are left in the '
               'romanization', text=ascii(w), roman=r)
    b = F.outputs(to, r, n=3)
    want = B.nfc(w)
    ctx.expect([x for x, _ in b] == [want], 'roman:lossy',
               'text is not restored from its romanization', text=ascii(w),
               roman=r, back=ascii(b), want=ascii(want))
    if want in value or all(c in value for c in want):
      exp = value.get(want) or ''.join(value[c] for c in want)
      ctx.expect(r == exp, 'roman:value', 'the romanization is not that of '
                 'the letters', text=ascii(w), roman=r, want=exp)
    if utf8:
      ctx.saw('utf8')
      o8 = F.outputs(fr8, w, 'utf8', 2)
      b8 = F.outputs(to8, r, 'utf8', 3)
      ctx.expect([x for x, _ in o8] == [r] and [x for x, _ in b8] == [want],
                 'roman:utf8', 'byte and UTF-8 grammars differ',
                 text=ascii(w), byte=r, utf8=ascii(o8), back=ascii(b8))

  def ok(w):
    return not B.disorder(w) and contiguous(w) and F.best(fr, w) is not None

  for a in letters:
    ctx.saw('letters')
    one(a, True)
  part = int(shard[5:])
  for i, (a, b) in enumerate(itertools.product(letters, repeat=2)):
    if (i % 3 == part and (ctx.thorough or rng.random() < .12)
        and not B.disorder(a + b) and contiguous(a + b)):
      one(a + b, rng.random() < .1)
  for _ in range(ctx.n(3000, 40000)):
    w = ''.join(rng.choice(letters if rng.random() < .8 else dec)
                for _ in range(rng.randint(2, 9)))
    for x in (w, B.nfd(w)):
      if not B.disorder(x) and contiguous(x):
        one(x, rng.random() < .3)


def api(ctx, shard):
  from nisaba.scripts import abjad_alphabet as api_  # pylint: disable=g-import-not-at-top
  rng = ctx.rng
  value = A.recorded()['roman']
  letters = [a for a in value if B.nfc(a) == a and len(a) == 1]
  to, fro = api_.ToReversibleRoman(), api_.FromReversibleRoman()
  other = list(' \t\n.,!?;:-_(){}"/|+~@#$%&*=<>0123456789abcXYZ') + list(
      'éßЖ日本\u00a0😀क')
  nfc_ = api_.Nfc()
  for _ in range(ctx.n(2000, 20000)):
    w = want = ''
    for _ in range(rng.randint(1, 4)):
      if rng.random() < .4:
        x = ''.join(rng.choice(other) for _ in range(rng.randint(1, 3)))
        w, want = w + x, want + x
      else:
        x = ''.join(rng.choice(letters) for _ in range(rng.randint(1, 4)))
        if B.disorder(w + x) or not contiguous(x) or B.nfc(x) != x:
          continue
        w, want = w + x, want + ''.join(value[c] for c in x)
    if B.disorder(w) or B.nfc(w) != w:
      continue
    ctx.case(('api', w), len(w) > 1, sample=ascii(w))
    ctx.saw('api')
    got = to.ApplyOnText(w)
    ctx.expect(got == want, 'api:mixed', 'text is not romanized with other '
               'characters copied', text=ascii(w), got=got, want=want)
    x = ''.join(c for c in w if c in value)
    if x and B.nfc(x) == x and not B.disorder(x):
      ctx.expect(fro.ApplyOnText(to.ApplyOnText(x)) == x, 'api:lossy',
                 'the Python API does not restore text', text=ascii(x))
      ctx.expect(nfc_.ApplyOnText(B.nfd(x)) == x, 'api:nfc',
                 'the Python API does not give the NFC', text=ascii(x))
