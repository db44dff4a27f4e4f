"""P15: English letters spelled out in South Asian languages."""

import itertools
import json
import os
import string
import unicodedata
import brahmic as B
import fstio as F

DATA = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'spellout.json')


def LABELS():
  return ['//nisaba/scripts/natural_translit/deromanization:en_spellout%s.far'
          % u for u in ('', '_utf8')] + [
              '//nisaba/scripts/brahmic:wellformed.far',
              '//nisaba/scripts/brahmic:nfc.far']

RULE = ('words of English letters in small, capital and mixed letters: all of '
        'one and two letters (three in the thorough tier), random words '
        'beyond, and other texts; a case is (language, word)')
ASSUMPTIONS = ['data/spellout.json records the name of each letter in each '
               'language; how names are joined is stated here']
SCALE = 4  # Of the quick tier.
REQUIRED = {'word': 50000, 'case': 5000, 'utf8': 8000, 'refused': 500,
            'separator': 5000, 'no separator': 5000, 'well-formed': 10000,
            'letters': 13 * 26, 'empty': 13}
AZ = string.ascii_lowercase
LANGS = ('BN_BENG GU_GUJR HI_DEVA KN_KNDA ML_MLYM MR_DEVA OR_ORYA PA_GURU '
         'SD_ARAB SI_SINH TA_TAML TE_TELU UR_ARAB').split()
# Scripts in which a final consonant would join with the next letter.
ZWNJ = ('KNDA', 'MLYM', 'TELU')


def shards(tier):
  return LANGS


def join(lang, names):
  """A word of the letters with these names."""
  script = lang[3:]
  if script == 'ARAB':
    return ' '.join(names)
  if script not in ZWNJ:
    return ''.join(names)
  r = ''
  for i, n in enumerate(names):
    r += n
    if i + 1 < len(names) and 'VIRAMA' in unicodedata.name(n[-1]):
      r += '\u200c'
  return r


def work(ctx, lang):
  rng = ctx.rng
  with open(DATA) as f:
    names = json.load(f)[lang]
  path = F.NT + 'deromanization/en_spellout'
  byte, utf8 = F.fst(path, lang), F.fst(path + '_utf8', lang)
  script = lang[3:].title()
  ok = nfc = None
  if script != 'Arab':
    ok = F.fst(F.BR + 'wellformed', script)
    nfc = F.fst(F.BR + 'nfc', script)

  def get(f, w, tt='byte'):
    return {x[0] for x in F.outputs(f, w, tt)}

  def one(w, deep):
    want = join(lang, [names[c] for c in w.lower()])
    ctx.case((lang, w), len(w) > 1)
    ctx.saw('word')
    if w != w.lower():
      ctx.saw('case')
    if len(w) > 1:
      ctx.saw('separator' if '\u200c' in want or ' ' in want
              else 'no separator')
    o = get(byte, w)
    ctx.expect(o == {want}, lang + ': word',
               'not the names of its letters, joined', text=w, got=sorted(o),
               codes=ascii(sorted(o)), want=want)
    if deep:
      ctx.saw('utf8')
      p = get(utf8, w, 'utf8')
      ctx.expect(p == o, lang + ': utf8', 'bytes and characters disagree',
                 text=w, byte=sorted(o), utf8=sorted(p))
    if ok and w:
      for t in o:
        ctx.saw('well-formed')
        ctx.expect(F.accepts(ok, t.replace('\u200c', '')),
                   lang + ': well-formed', 'not well-formed', text=w, got=t)
        ctx.expect(F.best(nfc, t) == t, lang + ': nfc', 'not in NFC', text=w,
                   got=t)
        ctx.expect(not set(t) & set(string.ascii_letters), lang + ': Latin',
                   'a Latin letter is left', text=w, got=t)

  one('', True)
  ctx.saw('empty')
  for c in AZ:
    ctx.saw('letters')
    one(c, True)
    one(c.upper(), True)
  for a, b in itertools.product(AZ, AZ):
    one(a + b, True)
    for w in (a.upper() + b, a + b.upper(), (a + b).upper()):
      one(w, False)
  if ctx.tier == 'thorough':
    for t in itertools.product(AZ, repeat=3):
      one(''.join(t), False)
  for i in range(ctx.n(4000, 40000)):
    w = ''.join(rng.choice(AZ) for _ in range(rng.randrange(3, 16)))
    if rng.random() < .3:
      w = ''.join(rng.choice((c, c.upper())) for c in w)
    one(w, i % 4 == 0)
  for i in range(ctx.n(60, 400)):
    w = ''.join(rng.choice(AZ) for _ in range(rng.randrange(0, 6)))
    j = rng.randrange(len(w) + 1)
    w = w[:j] + rng.choice(' 1.-éक\u200cſı\u212a') + w[j:]
    ctx.saw('refused')
    for f, tt in ((byte, 'byte'), (utf8, 'utf8')):
      o = get(f, w, tt)
      ctx.expect(not o, lang + ': refused', 'text of other characters is read',
                 text=w, got=sorted(o))
