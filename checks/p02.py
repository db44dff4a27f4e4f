"""P02: one romanizer for text in any mixture of scripts."""

import unicodedata

import brahmic as B
import fstio as F

LABELS = lambda: ['//nisaba/scripts/brahmic:iso.far',
                  '//nisaba/scripts/brahmic:iso_utf8.far',
                  '//nisaba/scripts/brahmic:py',
                  '//nisaba/scripts/brahmic:util'] + B.iso_labels()
RULE = ('texts of 1-6 pieces, each a run in one of the scripts (well-formed '
        'and ill-formed units) or a run of other characters (Latin, digits, '
        'punctuation, controls, brackets, emoji, CJK, unsupported scripts); '
        'non-trivial when it has two or more pieces')
ASSUMPTIONS = ['a run of a script is text the converter of that script takes '
               'as a whole (see P01)',
               'strings hold no NUL, which byte FSTs reserve for epsilon']
SCALE = 4  # Of the quick tier.
REQUIRED = {'mixed': 8000, 'per_script': 5000, 'others_copied': 3000}
OTHER = list(' \t\n.,!?;:-_()[]{}"\'\\/|+~^`@#$%&*=<>0123456789abcXYZ') + list(
    'āṁśʰéßѪяΩ日本語한あ😀𝔸\u0007\u001b\u00a0\u0964\u0965\u0e01\u0531'
    '\u05d0\u0627\ufffd\ufeff\u2019\u201c\u0100\U0010ffff')
NATIVE_BLOCKS = None


def shards(tier):
  return ['mixed%d' % i for i in range(8)] + ['single']


class Domain:

  def __init__(self):
    pins = B.pinned()
    self.scripts = {s: B.Script(s, pins[s]) for s in B.BRAHMIC}
    self.frm = {s: F.fst(F.BR + 'iso', 'FROM_' + s) for s in B.BRAHMIC}
    joiners = {a for a, _ in B.table('', 'symbol')}
    for s in self.scripts.values():
      s.units = [u for u in s.units if u not in joiners]
      s.cat['symbol'] = []

  def run(self, rng, s):
    sc = self.scripts[s]
    for _ in range(50):
      if rng.random() < .6:
        w = sc.wellformed(rng, 3)
      else:
        w = ''.join(rng.choice(sc.units) for _ in range(rng.randint(1, 5)))
      o = F.outputs(self.frm[s], w, n=1)
      if o:
        return w, o[0][0]
    return '', ''


def work(ctx, shard):
  dom = Domain()
  rng = ctx.rng
  whole = F.fst(F.BR + 'iso', 'FROM_BRAHMIC')
  native = {c for s in dom.scripts.values() for c in s.chars if ord(c) > 0x2ff}
  other = [c for c in OTHER if c not in native]

  def check(w, want, monitor, key):
    o = F.outputs(whole, w, n=2)
    ctx.saw(monitor)
    if not ctx.expect(o, monitor + ':fails', 'the rewrite fails',
                      text=ascii(w)):
      return
    ctx.expect(o[0][0] == want, monitor + ':wrong',
               'not the concatenation of what each script run gives, with the '
               'rest copied', text=ascii(w), got=o[0][0], want=want)
    if key:
      ctx.expect(len(o) == 1 or o[1][1] > o[0][1] + 1e-6,
                 monitor + ':ambiguous', 'two equally good results',
                 text=ascii(w), out=o)

  if shard == 'single':
    for s in B.BRAHMIC:
      for _ in range(ctx.n(400, 4000)):
        w, want = dom.run(rng, s)
        if w:
          ctx.case(('single', w), len(w) > 1, sample=w)
          check(w, want, 'per_script', True)
    for c in other:
      ctx.case(('other', c), False)
      check(c, c, 'others_copied', True)
    for _ in range(ctx.n(4000, 20000)):
      w = ''.join(rng.choice(other) for _ in range(rng.randint(2, 12)))
      if rng.random() < .5:
        w += rng.choice([chr(rng.randint(1, 0x8ff)),
                         chr(rng.randint(0x2010, 0xa7ff)),
                         chr(rng.randint(0x10000, 0x10fff))])
        if w[-1] in native or unicodedata.category(w[-1]) == 'Cs':
          continue
      ctx.case(('other', w), True, sample=w)
      check(w, w, 'others_copied', True)
    utf8 = F.fst(F.BR + 'iso_utf8', 'FROM_BRAHMIC')
    for s in B.BRAHMIC:
      for _ in range(20):
        w, want = dom.run(rng, s)
        o = F.outputs(utf8, w, 'utf8', 1)
        ctx.saw('utf8')
        if not o:
          ctx.violate('utf8:fails', 'the UTF-8 variant of the rewrite fails',
                      text=ascii(w))
        else:
          ctx.expect(o[0][0] == want, 'utf8:wrong',
                     'the UTF-8 variant differs', text=ascii(w),
                     got=o[0][0], want=want)
    api(ctx, dom, other)
    return

  for _ in range(ctx.n(2500, 25000)):
    parts, want, prev = [], [], None
    for _ in range(rng.randint(1, 6)):
      if rng.random() < .45:
        x = ''.join(rng.choice(other) for _ in range(rng.randint(1, 4)))
        parts.append(x)
        want.append(x)
        prev = None
      else:
        s = rng.choice([x for x in B.BRAHMIC if x != prev])
        w, o = dom.run(rng, s)
        if w:
          prev = s
          parts.append(w)
          want.append(o)
    w = ''.join(parts)
    ctx.case(w, len(parts) > 1, sample=w)
    check(w, ''.join(want), 'mixed', True)


def api(ctx, dom, other):
  from nisaba.scripts import brahmic  # pylint: disable=g-import-not-at-top
  to_iso = brahmic.ToIso()
  rng = ctx.rng
  for _ in range(ctx.n(1000, 5000)):
    s = rng.choice(B.BRAHMIC)
    w, want = dom.run(rng, s)
    x = ''.join(rng.choice(other) for _ in range(rng.randint(0, 4)))
    ctx.case(('api', x, w), True, sample=x + w)
    ctx.saw('api')
    try:
      got = to_iso.ApplyOnText(x + w)
    except Exception as e:  # pylint: disable=broad-except
      got = repr(e)
    ctx.expect(got == x + want, 'api', 'the Python API gives something else',
               text=ascii(x + w), got=got, want=x + want)
