"""P04: the NFC grammars of the Brahmic scripts agree with Unicode."""

import itertools
import unicodedata

import brahmic as B
import fstio as F

LABELS = ['//nisaba/scripts/brahmic:nfc.far',
          '//nisaba/scripts/brahmic:nfc_utf8.far',
          '//nisaba/scripts/brahmic:sigma_utf8.far']
RULE = ('texts over the characters a script supports (data/sigma.json, and '
        'the characters of its block which have a decomposition): all of up '
        'to two characters, and random ones of 3-12, rich in marks and '
        '(de)composable sequences; mixtures of scripts for the grammar of all '
        'scripts; a case is (grammar, text), non-trivial when NFC changes the '
        'text or it has combining marks')
ASSUMPTIONS = ['the oracle is unicodedata.normalize of the Python in use '
               '(stable for characters already assigned)']
SCALE = 4  # Of the quick tier.
REQUIRED = {'nfc': 100000, 'changed': 5000, 'utf8': 20000, 'brahmic': 20000,
            'letters': 1200, 'no letters': 10000}


def shards(tier):
  return B.BRAHMIC + ['mixed%d' % i for i in range(4)]


def alphabet(script):
  cs = set(B.sigma()[script])
  own = {c for c in map(chr, range(0x900, 0x12000))
         if unicodedata.name(c, '').startswith(B.PREFIX[script] + ' ')
         and B.nfd(c) != c}
  return sorted(cs | own)


def pool(cs):
  """Pieces likely to interact."""
  marks = [c for c in cs if unicodedata.combining(c)]
  dec = [c for c in cs if B.nfd(c) != c]
  parts = sorted({x for c in dec for x in B.nfd(c)})
  seq = [B.nfd(c) for c in dec]
  return [p for p in (cs, marks, dec, parts, seq) if p]


def across_marks(w):
  """Marks which compose, in NFC, with a letter they do not directly follow."""
  d = B.nfd(w)
  if B.adjacent_nfc(d) == B.nfc(w):
    return []
  return sorted({m for i, m in enumerate(d) if i > 1
                 and 0 < unicodedata.combining(d[i - 1])
                 < unicodedata.combining(m)
                 and any(len(B.nfc(c + m)) == 1 for c in d[:i - 1])})


def check(ctx, f, w, tt, where, monitor='nfc'):
  want = B.nfc(w)
  o = F.outputs(f, w, tt, 2)
  ctx.saw(monitor)
  if want != w:
    ctx.saw('changed')
  if len(o) != 1:
    ctx.violate('%s:outputs' % where, 'not exactly one result', text=ascii(w),
                out=ascii(o))
    return None
  got = o[0][0]
  if got != want:
    pairs = B.disorder(w)
    across = across_marks(w)
    if (pairs or across) and got == B.adjacent_nfc(w):
      for m in across:
        ctx.violate('across:%04X' % ord(m), 'a mark is not composed with its '
                    'letter when other marks are between them', text=ascii(w),
                    got=ascii(got), want=ascii(want))
      for a, b in pairs:
        ctx.violate('reorder:%04X>%04X' % (ord(a), ord(b)),
                    'combining marks are not put in canonical order',
                    text=ascii(w), got=ascii(got), want=ascii(want))
    else:
      ctx.violate('%s:%s' % (where, 'not-nfc'), 'result is not the NFC',
                  text=ascii(w), got=ascii(got), want=ascii(want),
                  token_type=tt)
  return got


def work(ctx, shard):
  rng = ctx.rng
  if shard.startswith('mixed'):
    f, u = (F.fst(F.BR + 'nfc' + x, 'BRAHMIC') for x in ('', '_utf8'))
    al = {s: alphabet(s) for s in B.BRAHMIC}
    pools = {s: pool(al[s]) for s in al}
    for _ in range(ctx.n(2500, 25000)):
      w = ''
      for _ in range(rng.randint(1, 4)):
        s = rng.choice(B.BRAHMIC)
        for _ in range(rng.randint(1, 4)):
          x = rng.choice(rng.choice(pools[s]))
          # Marks do not follow marks of another script.
          if w and unicodedata.combining(x[0]) and w[-1] not in al[s]:
            continue
          w += x
      if not w:
        continue
      ctx.case(('mixed', w), True, sample=ascii(w))
      got = check(ctx, f, w, 'byte', 'BRAHMIC')
      o = F.outputs(u, w, 'utf8', 2)
      ctx.saw('utf8')
      ctx.expect([x for x, _ in o] == [got], 'BRAHMIC:utf8',
                 'byte and UTF-8 grammars differ', text=ascii(w),
                 byte=ascii(got), utf8=ascii(o))
    return
  f, u = (F.fst(F.BR + 'nfc' + x, shard) for x in ('', '_utf8'))
  br = F.fst(F.BR + 'nfc', 'BRAHMIC')
  cs = alphabet(shard)
  pools = pool(cs)

  def one(w, others):
    ctx.case((shard, w), B.nfc(w) != w or any(
        unicodedata.combining(c) for c in w), sample=ascii(w))
    got = check(ctx, f, w, 'byte', shard)
    if others and got is not None:
      o = F.outputs(u, w, 'utf8', 2)
      ctx.saw('utf8')
      ctx.expect([x for x, _ in o] == [got], '%s:utf8' % shard,
                 'byte and UTF-8 grammars differ', text=ascii(w),
                 byte=ascii(got), utf8=ascii(o))
      o = F.outputs(br, w, n=2)
      ctx.saw('brahmic')
      ctx.expect([x for x, _ in o] == [got], '%s:brahmic' % shard,
                 'the grammars of the script and of all scripts differ',
                 text=ascii(w), script=ascii(got), all=ascii(o))
      o = F.outputs(f, got, n=2)
      ctx.expect([x for x, _ in o] == [got], '%s:unstable' % shard,
                 'normalizing twice differs from once', text=ascii(w),
                 once=ascii(got), twice=ascii(o))

  letters = F.fst(F.BR + 'sigma_utf8', shard)
  taken = lambda f, w: bool(F.outputs(f, w, 'utf8', 1))
  for c in cs:
    ctx.saw('letters')
    o = F.outputs(letters, c, 'utf8', 2)
    ctx.expect([x for x, _ in o] == [c], '%s:letter' % shard,
               'the alphabet has each of the characters of the script',
               text=ascii(c), got=ascii(o))
  strangers = set(map(chr, itertools.chain(
      range(1, 0x3000), range(0xa800, 0xac00), range(0xfb00, 0xfe00),
      range(0x11000, 0x11800), range(0x1f600, 0x1f610)))) - set(cs)
  texts = [''] + rng.sample(sorted(strangers), ctx.n(700, 6000)) + [
      rng.choice(cs) + rng.choice(cs) for _ in range(100)]
  for w in texts:
    ctx.saw('no letters')
    ctx.expect(taken(letters, w) == (len(w) == 1 and taken(u, w)),
               '%s:stranger' % shard,
               'the alphabet has single characters only, and those which the '
               'normalizer takes', text=ascii(w))

  one('', True)
  for c in cs:
    one(c, True)
    one(B.nfd(c), True)
  for a, b in itertools.product(cs, repeat=2):
    one(a + b, ctx.thorough or rng.random() < .15)
  for _ in range(ctx.n(2500, 40000)):
    w = ''.join(rng.choice(rng.choice(pools))
                for _ in range(rng.randint(3, 7)))
    one(w, True)
    one(B.nfd(w), ctx.thorough)
  for _ in range(ctx.n(20, 200)):
    one(''.join(rng.choice(rng.choice(pools)) for _ in range(60)), True)
