"""P13: pronunciation and natural romanization of nine languages."""

import brahmic as B
import fstio as F
import natural as N

NT = '//nisaba/scripts/natural_translit/'
E2E = 'hi kn ml ta te'.split()
KINDS = ('ipa', 'psaf', 'psac', 'nat')


def LABELS():
  r = []
  for l in N.LANGS:
    for u in ('', '_utf8'):
      r.append(NT + 'g2p:%s_iso_ipa%s.far' % (l, u))
      r += [NT + 'romanization:%s_iso_%s%s.far' % (l, k, u)
            for k in KINDS[1:]]
  r += [NT + 'languages:%s_e2e%s.far' % (l, u)
        for l in E2E for u in ('', '_utf8')]
  return r + ['//nisaba/scripts/brahmic:iso.far'] + B.iso_labels()

RULE = ('ISO 15919 text: all short frames of vowels, consonants, clusters, '
        'codas and modifiers, spelled-out acronyms, random words, '
        'romanizations of random native words, and arbitrary strings of the '
        'alphabet; a case is (language, text)')
ASSUMPTIONS = ['the oracle is a rewriter over Python strings with the '
               'pronunciation and romanization rules of each language, and '
               'data/natural.json, the phonemes and spellings of letters']
REQUIRED = {'ipa': 40000, 'psaf': 40000, 'psac': 40000, 'nat': 40000,
            'utf8': 6000, 'e2e': 5000, 'native': 3000, 'unreadable': 900,
            'acronym': 400, 'rules': 200}


def shards(tier):
  return N.LANGS


LETTERS = sorted(N._READ)
V = list('āæạeēêiīoōôuūa') + ['ai', 'au', 'l̥', 'r̥', 'l̥̄', 'r̥̄', 'ạ̄']
C = [c[1] for g in ('SIMPLE_CONSONANT', 'ASPIRATED_CONSONANT')
     for c in N._CH[g]]
K = [c[1] for c in N._CH['SIMPLE_CODA'] + N._CH['CND']]
DEAD = [c[1] for c in N._CH['DEAD_CONSONANT']]
# Spoken names of English letters, as they are written in Hindi.
NAMES = ('ē bī sī ḍī ī ēfa jī ēca āī jē kē ēla ēma ēna ō pī kyū āra ēsa ṭī yū '
         'vī ḍablū ḍablyū ḍabalyū ḍablayū ēksa vāī jēḍa zēḍa').split()


def acronym(rng):
  w = ''
  for k in range(rng.randrange(1, 6)):
    n = rng.choice(NAMES)
    if rng.random() < .15:
      n = n.translate(str.maketrans('ēīāūf', 'eiaup'))
    if w and n[0] in 'ēīāōeiao':
      w += '.'
    w += n
  if rng.random() < .2:
    i = rng.randrange(len(w))
    w = w[:i] + rng.choice(LETTERS) + w[i:]
  return w


def syllable(rng):
  r = rng.random()
  if r < .15:
    w = '.' + rng.choice(V)
  elif r < .2:
    return rng.choice(DEAD)
  elif r < .22:
    return 'õm'
  else:
    w = rng.choice(C)
    while rng.random() < .35:
      w += rng.choice(C)
    w += rng.choice(V) if rng.random() < .6 else 'a'
  if rng.random() < .25:
    w += rng.choice(K)
  return w


def word(rng):
  r = rng.random()
  if r < .12:
    return ''.join(rng.choice(LETTERS) for _ in range(rng.randrange(1, 9)))
  w = ''.join(syllable(rng) for _ in range(rng.randrange(1, 5)))
  return rng.choice(V) + w if rng.random() < .3 else w


def frames():
  """Short words in which every pair of neighbours occurs."""
  for c in C:
    for d in C:
      yield 'ka%s%sakī' % (c, d)
      yield 'ka%s%sa' % (c, d)
      yield 'pāka%s%sō' % (c, d)
      yield 'i%s%s' % (c, d)
      yield 'ka%sa%sa' % (c, d)
    for k in K + DEAD:
      yield 'ka%s%sa' % (k, c)
      yield 'pi%sa%s' % (c, k)
      yield 'pō%sā%s%sō' % (k, c, k)
    for v in V:
      yield c + v
      yield v + c + 'ō'
      yield 'ka%sa.%s' % (c, v)
      yield '.%s%s%s' % (v, c, v)
      yield 'ka%s%sⸯy%s' % (c, v, v)
  for v in V:
    for w in V:
      for k in [''] + K:
        yield 'k%s.%s%s' % (v, w, k)
        yield v + '.' + w + k
      yield 'k%sẏ%s' % (v, w)
      yield '.%sẏ%s' % (v, w)
      yield 's%sñ%s' % (v, w)
    for k in K:
      yield 'gāv%s%s' % (v, k)
      yield 'k%s%sva' % (v, k)
      yield 'k%s%sō' % (v, k)


def work(ctx, lang):
  rng = ctx.rng
  path = {'ipa': F.NT + 'g2p/%s_iso_ipa' % lang}
  for k in KINDS[1:]:
    path[k] = F.NT + 'romanization/%s_iso_%s' % (lang, k)
  byte = {k: F.fst(p, 'iso_to_' + k) for k, p in path.items()}
  utf8 = {k: F.fst(p + '_utf8', 'iso_to_' + k) for k, p in path.items()}
  e2e = {}
  if lang in E2E:
    for tt in ('byte', 'utf8'):
      fars = F.far(F.NT + 'languages/%s_e2e%s' % (
          lang, '_utf8' if tt == 'utf8' else ''))
      for k in KINDS:
        f = fars.get('ISO_TO_' + k.upper())
        if f is not None:
          e2e[k, tt] = f
    ctx.expect({k for k, _ in e2e} >= {'ipa', 'psaf', 'psac'}, 'e2e',
               'an end-to-end transducer is gone', got=sorted(e2e))
  fired = set()

  def get(f, w, tt='byte'):
    return {x[0] for x in F.outputs(f, w, tt, n=8)}

  def one(w, deep=False, readable=True):
    want = N.transduce(lang, w, fired)
    ctx.case((lang, w), want['nat'] != {w})
    for k in KINDS:
      o = get(byte[k], w)
      ctx.saw(k)
      ctx.expect(o == want[k], '%s: %s' % (lang, k),
                 'not as the rules of the language say', text=w,
                 codes=ascii(w), got=sorted(o), want=sorted(want[k]))
      if readable:
        ctx.expect(len(o) == 1, '%s: %s: number' % (lang, k),
                   'not exactly one result', text=w, got=sorted(o))
      if deep:
        ctx.saw('utf8')
        p = get(utf8[k], w, 'utf8')
        ctx.expect(p == o, '%s: %s: utf8' % (lang, k),
                   'bytes and characters disagree', text=w, byte=sorted(o),
                   utf8=sorted(p))
        for tt in ('byte', 'utf8'):
          if (k, tt) in e2e:
            ctx.saw('e2e')
            p = get(e2e[k, tt], w, tt)
            ctx.expect(p == o, '%s: %s: e2e' % (lang, k),
                       'the end-to-end transducer disagrees', text=w,
                       single=sorted(o), e2e=sorted(p))
    return want

  at = rng.randrange(20)
  for i, w in enumerate(frames()):
    one(w, i % ctx.n(20, 5) == at % ctx.n(20, 5))
  for i in range(ctx.n(1500, 20000)):
    one('ka%s%sa%s%sō' % tuple(rng.choice(C) for _ in range(4)), i % 20 == 0)

  for i in range(ctx.n(4000, 120000)):
    one(word(rng), i % 8 == 0)

  for i in range(ctx.n(300, 8000)):
    ctx.saw('acronym')
    one(acronym(rng), i % 5 == 0)

  # What native words are in ISO.
  script = N.SCRIPT[lang]
  sc = B.Script(script, B.pinned()[script])
  to_iso = F.fst(F.BR + 'iso', 'FROM_' + script)
  for i in range(ctx.n(1200, 25000)):
    iso = F.best(to_iso, ''.join(
        sc.akshara(rng) for _ in range(rng.randrange(1, 5))))
    if iso is not None:
      ctx.saw('native')
      one(iso, i % 8 == 0, readable=all(c in N._READ for c in iso))

  # Text which is not ISO of the nine scripts.
  for i in range(ctx.n(250, 2000)):
    w = word(rng)
    j = rng.randrange(len(w) + 1)
    w = w[:j] + rng.choice(' AKéπक1?ĕʼꞌ') + w[j:]
    ctx.saw('unreadable')
    one(w, i % 4 == 0, readable=False)

  rules = N.PRON[lang] + N.NAT[lang] + N.FINE[lang] + N.COARSE[lang]
  ctx.saw('rules', len({id(r) for r in rules} & fired))
  ctx.notes['rules'] = '%d of %d rules changed something' % (
      len({id(r) for r in rules} & fired), len({id(r) for r in rules}))
