"""P05: visual normalization gives one stable, well-formed spelling."""

import brahmic as B
import fstio as F
import gen

LABELS = lambda: ['//nisaba/scripts/brahmic:%s%s.far' % (x, y)
                  for x in ('visual_norm', 'wellformed') for y in ('', '_utf8')
                  ] + B.iso_labels()
RULE = ('well-formed words with rewritable sequences and joiners (and, for '
        'the laws on joiners and on canonical equivalence, ill-formed ones '
        'too) in each script, and in Bengali script for Assamese and Bangla; '
        'a case is (script, language, word), non-trivial when normalization '
        'changes it')
ASSUMPTIONS = ['well-formed is what the well-formedness grammar accepts, which '
               'P06 decides', 'words whose marks are not in canonical order '
               'are left out of the NFC law (see P04)']
SCALE = 4  # Of the quick tier.
REQUIRED = {'wellformed': 20000, 'stable': 20000, 'changed': 1000,
            'joiners': 5000, 'equivalent': 20000, 'utf8': 10000}
LANGS = [('Beng', 'as'), ('Beng', 'bn')]


def shards(tier):
  return [s + '/' for s in B.BRAHMIC] + ['%s/%s' % x for x in LANGS]


def work(ctx, shard):
  script, lang = shard.split('/')
  rng = ctx.rng
  key = lang or script
  f = F.fst(F.BR + 'visual_norm', key)
  u = F.fst(F.BR + 'visual_norm_utf8', key)
  wf = F.fst(F.BR + 'wellformed', script)
  t = gen.Texts(script)
  cons = t.cons
  keep = t.sc.preserve

  def bad(law, what, **kw):
    ctx.violate('%s:%s' % (key, law), what, **kw)

  def joiners(w, g):
    """Joiners are only in listed sequences between consonants."""
    for i, c in enumerate(g):
      if c not in B.ZW:
        continue
      ctx.saw('joiners')
      ok = any(g[i - k:i - k + len(p)] == p and i - k >= 0
               and any(g[:i - k].endswith(x) for x in cons)
               and any(g[i - k + len(p):].startswith(x) for x in cons)
               for p in keep for k in range(len(p)))
      if not ok:
        bad('joiner', 'a joiner is kept where it is not listed',
            text=ascii(w), got=ascii(g))

  def one(w):
    o = F.outputs(f, w, n=2)
    wfi = F.accepts(wf, w)
    if len(o) != 1:
      bad('outputs', 'not exactly one result', text=ascii(w), out=ascii(o))
      return
    g = o[0][0]
    ctx.case((key, w), g != w, sample=[ascii(w), ascii(g)])
    joiners(w, g)
    d = B.nfd(w)
    if B.adjacent_nfc(d) == B.adjacent_nfc(w):
      ctx.saw('equivalent')
      for v in {d, B.adjacent_nfc(w)} - {w}:
        b = F.best(f, v)
        if b != g:
          bad('equivalent', 'canonically equivalent texts are normalized '
              'differently', a=ascii(w), b=ascii(v), of_a=ascii(g),
              of_b=ascii(b))
    if rng.random() < .3:
      o8 = F.outputs(u, w, 'utf8', 2)
      ctx.saw('utf8')
      if [x for x, _ in o8] != [g]:
        bad('utf8', 'byte and UTF-8 grammars differ', text=ascii(w),
            byte=ascii(g), utf8=ascii(o8))
    if not wfi:
      return
    ctx.saw('wellformed')
    if g != w:
      ctx.saw('changed')
    if not F.accepts(wf, g):
      bad('illformed', 'well-formed text becomes ill-formed', text=ascii(w),
          got=ascii(g))
    ctx.saw('stable')
    g2 = F.best(f, g)
    if g2 != g:
      bad('unstable', 'normalizing twice differs from once', text=ascii(w),
          once=ascii(g), twice=ascii(g2))
    if B.adjacent_nfc(g) != g or (not B.disorder(g) and B.nfc(g) != g):
      bad('not-nfc', 'the result is not in NFC', text=ascii(w), got=ascii(g),
          nfc=ascii(B.nfc(g)))

  # Every rewrite rule, within and after syllables.
  for a in t.lhs:
    for _ in range(ctx.n(3, 30)):
      one(t.sc.akshara(rng) + a + rng.choice(['', t.sc.akshara(rng)]))
    for c in cons[:ctx.n(4, 40)]:
      one(c + a)
      one(a + c)
    one(a)
  # Spellings for which the normalizer does something, within words.
  active = [a for a in t.lhs + [c + a for c in cons[:30] for a in t.lhs]
            if F.accepts(wf, a) and F.best(f, a) not in (None, a)]
  for _ in range(ctx.n(300, 5000) if active else 0):
    one(''.join(rng.choice([rng.choice(active), t.sc.akshara(rng, True)])
                for _ in range(rng.randint(1, 4))))
  for _ in range(ctx.n(1200, 15000)):
    one(t.wellish(rng))
  for _ in range(ctx.n(500, 5000)):
    one(t.any(rng))
  for p in keep:
    for _ in range(ctx.n(300, 3000)):
      w = rng.choice(cons) + p + rng.choice(cons)
      if rng.random() < .5:
        w = t.sc.akshara(rng) + w + t.sc.maybe(rng, 'vowel_sign', .7)
      one(w)
