"""P14: deromanization of Latin letters for Hindi and Tamil."""

import itertools
import string
import brahmic as B
import derom as D
import fstio as F

NT = '//nisaba/scripts/natural_translit/'
LANGS = {'hi': ('deva', 'Deva', D.HI), 'ta': ('taml', 'Taml', D.TA)}


def LABELS():
  return [NT + 'deromanization:%s_%s%s.far' % (l, k, u)
          for l, (s, _, _) in LANGS.items() for k in ('iso', s)
          for u in ('', '_utf8')] + [
              '//nisaba/scripts/brahmic:iso.far',
              '//nisaba/scripts/brahmic:wellformed.far'] + B.iso_labels()

RULE = ('strings of Latin letters: all of up to three letters (a share of '
        'them in the quick tier) and of four in the thorough tier, random '
        'strings of letters and of the fragments which rules look at, '
        'spellings as people write them, and texts with other characters; a '
        'case is (language, text)')
ASSUMPTIONS = ['the oracle is a rewriter over Python strings with the '
               'letters, values and rule order of each language']
REQUIRED = {'iso': 50000, 'native': 50000, 'one result': 100000,
            'utf8': 4000, 'refused': 300, 'to native': 15000,
            'to iso': 5000, 'well-formed': 10000, 'rules': 400}
SHARDS = 8
AZ = string.ascii_lowercase
FRAG = ('k kk kh ch cch chh shsh ssh sh zh zzh zhzh tr trtr ttr f ff x xx n m '
        'b p a aa ai ae oa e ee i ii o oo u uu h phph pph hh th tth thth d dh '
        'ddh g gh ggh j jh q qq w ww v y z zz rr r au l').split()
SYL = ['%s%s' % (c, v) for c in ('k kh g gh ch j jh t th d dh n p ph b bh m y '
                                 'r l v w s sh h f z x').split()
       for v in 'a aa i ee u oo e ai o au'.split()]


def shards(tier):
  return [str(i) for i in range(SHARDS)]


def one_fst(path):
  f = F.far(path)
  assert len(f) == 1, (path, sorted(f))
  return next(iter(f.values()))


def work(ctx, shard):
  shard = int(shard)
  rng = ctx.rng
  for lang, (k, script, model) in LANGS.items():
    run(ctx, rng, lang, k, script, model, shard)


def run(ctx, rng, lang, k, script, model, shard):
  der = {u: (one_fst(F.NT + 'deromanization/%s_iso%s' % (lang, u)),
             one_fst(F.NT + 'deromanization/%s_%s%s' % (lang, k, u)))
         for u in ('', '_utf8')}
  to = F.fst(F.BR + 'iso', 'TO_' + script)
  back = F.fst(F.BR + 'iso', 'FROM_' + script)
  ok = F.fst(F.BR + 'wellformed', script)
  fired = set()

  def one(w, deep):
    iso, native = model(w, fired)
    ctx.case((lang, w), iso != {w})
    got = []
    for what, f, want in (('iso', der[''][0], iso),
                          ('native', der[''][1], native)):
      o = {x[0] for x in F.outputs(f, w, n=4)}
      got.append(o)
      ctx.saw(what)
      ctx.expect(o == want, '%s: %s' % (lang, what),
                 'not as the rules of the language say', text=w,
                 got=sorted(o), want=sorted(want))
      ctx.saw('one result')
      ctx.expect(len(o) == 1, '%s: %s: number' % (lang, what),
                 'not exactly one result', text=w, got=sorted(o))
    if deep:
      for i in (0, 1):
        ctx.saw('utf8')
        o = {x[0] for x in F.outputs(der['_utf8'][i], w, 'utf8', n=4)}
        ctx.expect(o == got[i], '%s: utf8' % lang,
                   'bytes and characters disagree', text=w,
                   byte=sorted(got[i]), utf8=sorted(o))
    if len(got[0]) == len(got[1]) == 1:
      iso, native = got[0].pop(), got[1].pop()
      # (The two may differ in where independent vowels stand.)
      o = F.best(back, native)
      if native:
        ctx.saw('well-formed')
        ctx.expect(F.accepts(ok, native), lang + ': well-formed',
                   'the native text is not well-formed', text=w, got=native)
      ctx.saw('to native')
      ctx.expect(F.best(to, iso) == native, lang + ': to native',
                 'the ISO text does not stand for the native text', text=w,
                 iso=iso, native=native, got=F.best(to, iso))
      ctx.saw('to iso')
      ctx.expect(o == iso, lang + ': to iso',
                 'the native text does not stand for the ISO text', text=w,
                 iso=iso, native=native, got=o)

  step = SHARDS * ctx.n(2, 1)
  at = shard + SHARDS * rng.randrange(step // SHARDS)
  for n in (0, 1, 2, 3):
    for i, t in enumerate(itertools.product(AZ, repeat=n)):
      if n < 3 or i % step == at:
        one(''.join(t), i % (7 * step) == at)
  if ctx.tier == 'thorough':
    for i, t in enumerate(itertools.product(AZ, repeat=4)):
      if i % (SHARDS * 2) == shard:
        one(''.join(t), i % 401 == 0)

  for i in range(ctx.n(2500, 20000)):
    r = rng.random()
    if r < .25:
      w = ''.join(rng.choice(AZ) for _ in range(rng.randrange(1, 12)))
    elif r < .75:
      w = ''.join(rng.choice(FRAG) for _ in range(rng.randrange(1, 7)))
    else:
      w = ''.join(rng.choice(SYL) for _ in range(rng.randrange(1, 6)))
      if rng.random() < .5:
        w += rng.choice(FRAG)
    one(w, i % 5 == 0)

  for i in range(ctx.n(120, 800)):
    w = ''.join(rng.choice(FRAG) for _ in range(rng.randrange(0, 4)))
    j = rng.randrange(len(w) + 1)
    w = w[:j] + rng.choice(' AZéआก1?-.') + w[j:]
    ctx.saw('refused')
    for u, tt in (('', 'byte'), ('_utf8', 'utf8')):
      for f in der[u]:
        o = F.outputs(f, w, tt)
        ctx.expect(not o, lang + ': refused',
                   'text other than Latin letters is read', text=w, got=o)

  rules = model.rules + model.to_iso
  n = len({id(r) for r in rules} & fired)
  ctx.saw('rules', n)
  ctx.notes['rules ' + lang] = '%d of %d rules changed something' % (
      n, len(rules))
