"""P08: the Python APIs work on text word by word."""

import concurrent.futures
import os
import pathlib
import random
import shutil
import string
import sys
import tempfile
import threading
import time
import unicodedata

import abjad as A
import brahmic as B
import fstio as F
import gen

LABELS = lambda: [
    '//nisaba/scripts/brahmic:py', '//nisaba/scripts/brahmic:util',
    '//nisaba/scripts/abjad_alphabet:py_api'] + [
        '//nisaba/scripts/brahmic:%s.far' % x for x in (
            'iso', 'nfc', 'visual_norm', 'wellformed')] + [
        '//nisaba/scripts/abjad_alphabet:%s.far' % x for x in (
            'nfc', 'visual_norm', 'reading_norm', 'reversible_roman')
        ] + B.all_labels() + ['//nisaba/scripts/abjad_alphabet/data/Arab:'
                              'reversible_roman.tsv']
RULE = ('lines of 0-6 words (well-formed, ill-formed, other scripts, brackets '
        'and backslashes, digits, emoji) between runs of ignored characters, '
        'for the default and random sets of ignored characters, in one or '
        'many threads; a case is (API, script, ignored characters, line), '
        'non-trivial when the line has two or more words')
ASSUMPTIONS = ['what a grammar does with one word is taken from the grammar '
               'itself (P04-P06, P09, P10 decide it)',
               'text holds no NUL, which byte FSTs reserve for epsilon']
SCALE = 3  # Of the quick tier.
REQUIRED = {'lines': 8000, 'rejected': 1000, 'normalized': 1500,
            'unknown': 100, 'threads': 800, 'wrapper': 3000,
            'archives': 1500}
ODD = ['a', 'Z', '7', '[', ']', '[[', '\\', '\\n', '[]', 'a]b', '^', '-', '.',
       '$', '日', '😀', 'é', '\u00a0', '\u200b', '\u0301', '{', '}', 'क',
       '\u2028', '\x1c', '\x85']


def shards(tier):
  return (['br/%d' % i for i in range(8)] + ['ab/%d' % i for i in range(5)]
          + ['threads'])


class Line:
  """Makes lines; the oracle splits them without regular expressions."""

  def __init__(self, rng, words):
    self.rng, self.words = rng, words

  def ignored(self):
    rng = self.rng
    r = rng.random()
    if r < .45:
      return string.whitespace
    if r < .52:
      return ''
    pool = ' \t\n\r.,!?;:-_^]\\[|/"\'()*+?{}$0123456789' + '\u0964\u200b\u060c'
    return ''.join(rng.sample(pool, rng.randint(1, 6)))

  def make(self, ignore):
    rng = self.rng
    seps = list(ignore) + [' ']
    if rng.random() < .3:
      seps.append(rng.choice(['\n', '\r\n', '\t']))
    out = []
    for _ in range(rng.randint(0, 6)):
      out.append(''.join(rng.choice(seps) for _ in range(rng.randint(0, 3))))
      out.append(self.words())
    out.append(''.join(rng.choice(seps) for _ in range(rng.randint(0, 2))))
    return ''.join(out)


def tokens(line, ignore):
  """Maximal runs of characters which are, or are not, ignored."""
  out = []
  for c in line:
    k = c in ignore
    if out and out[-1][0] == k:
      out[-1][1] += c
    else:
      out.append([k, c])
  return out


def brahmic_setup(rng, script):
  t = gen.Texts(script)
  vn, wf = F.fst(F.BR + 'visual_norm', script), F.fst(
      F.BR + 'wellformed', script)

  def words():
    r = rng.random()
    if r < .7:
      return t.wellish(rng, 3)
    if r < .85:
      return t.any(rng, 2)
    return rng.choice(ODD) + (t.wellish(rng, 1) if rng.random() < .4 else '')

  def one(w):
    g = F.best(vn, w)
    if g is None:
      return None, 'input'
    if not F.accepts(wf, g):
      return None, 'ill-formed'
    return g, None

  return words, one


def abjad_setup(rng, lang):
  chars = [c for c in A.sigma() if 0x600 <= ord(c) < 0x700]
  nfc, vn = F.fst(F.AB + 'nfc', 'ARAB'), F.fst(F.AB + 'visual_norm', lang)
  good = [c for c in A.sigma() if ord(c) < 0x600] + B.nfd('آئۂأ').split()
  odd = [c for c in ODD if not set(c) & set('[]')]

  def words():
    r = rng.random()
    if r < .8:
      return ''.join(rng.choice(chars) for _ in range(rng.randint(1, 5)))
    if r < .95:
      return ''.join(rng.choice(good) for _ in range(rng.randint(1, 3))
                     if r < .94)
    return rng.choice(odd)

  def one(w):
    g = F.best(nfc, w)
    g = g and F.best(vn, g)
    return (None, 'input') if g is None else (g, None)

  return words, one


def expected(line, ignore, one):
  """The result, or the kind of error of the first word which has one."""
  out = []
  for k, w in tokens(line, ignore):
    if k:
      out.append(w)
      continue
    g, err = one(w)
    if err:
      return None, err
    out.append(g)
  return ''.join(out), None


def call(f, x, errors):
  try:
    return f(x), None
  except Exception as e:  # pylint: disable=broad-except
    for kind, cls in errors.items():
      if isinstance(e, cls):
        return None, kind
    return None, repr(e)


def work(ctx, shard):
  if shard == 'threads':
    threads(ctx)
    return
  kind, part = shard.split('/')
  if kind == 'br':
    for _ in range(ctx.n(8, 80)):
      archives(ctx)
    brahmic(ctx, int(part))
  else:
    abjad(ctx, int(part))


def drive(ctx, name, make, errors, words, one):
  rng = ctx.rng
  line = Line(rng, words)
  for _ in range(ctx.n(35, 400)):
    ignore = line.ignored()
    norm = make(name, ignore)
    if ignore == string.whitespace and rng.random() < .5:
      norm = make(name, None)
    for _ in range(14):
      x = line.make(ignore)
      n = sum(not k for k, _ in tokens(x, ignore))
      ctx.case((name, ignore, x), n > 1, sample=[name, ascii(ignore),
                                                 ascii(x)])
      ctx.saw('lines')
      want, err = expected(x, ignore, one)
      got, gerr = call(norm.ApplyOnText, x, errors)
      ctx.saw('rejected' if err else 'normalized')
      ctx.expect((got, gerr) == (want, err), 'line:%s' % (err or 'text'),
                 'a line is not handled word by word', text=ascii(x),
                 ignore=ascii(ignore), api=name, got=ascii((got, gerr)),
                 want=ascii((want, err)))
      w = words()
      if w:
        want = one(w)
        got = call(norm.ApplyOnWord, w, errors)
        ctx.expect(got == want, 'word:%s' % (want[1] or 'text'),
                   'a word is not handled as the grammars do', text=ascii(w),
                   api=name, got=ascii(got), want=ascii(want))


def brahmic(ctx, part):
  from nisaba.scripts import brahmic as api  # pylint: disable=g-import-not-at-top
  from nisaba.scripts.utils import far  # pylint: disable=g-import-not-at-top
  rng = ctx.rng
  errors = {'ill-formed': api.IllFormedError, 'script': api.ScriptError,
            'input': far.FstInputError}

  def make(name, ignore):
    if ignore is None:
      return api.NormalizingAcceptor(name)
    return api.NormalizingAcceptor(name, ignore)

  for i, s in enumerate(B.BRAHMIC):
    if i % 8 != part:
      continue
    words, one = brahmic_setup(rng, s)
    name = rng.choice([s, s.lower(), s.upper()])
    drive(ctx, name, make, errors, words, one)
    fsts = [(api.Nfc(), F.fst(F.BR + 'nfc', 'BRAHMIC')),
            (api.VisualNorm(name), F.fst(F.BR + 'visual_norm', s)),
            (api.ToIso(), F.fst(F.BR + 'iso', 'FROM_BRAHMIC')),
            (api.IsoTo(name), F.fst(F.BR + 'iso', 'TO_' + s))]
    if s == 'Beng':
      fsts += [(api.VisualNorm(l), F.fst(F.BR + 'visual_norm', l))
               for l in ('as', 'bn')]
    acc = api.WellFormed(name)
    wf = F.fst(F.BR + 'wellformed', s)
    iso = F.fst(F.BR + 'iso', 'FROM_' + s)
    for _ in range(ctx.n(60, 1000)):
      w = words()
      ctx.saw('wrapper')
      got = call(acc.AcceptText, w, {})
      ctx.expect(got == (F.accepts(wf, w), None), 'accept',
                 'AcceptText is not what the acceptor says', text=ascii(w),
                 got=ascii(got))
      for k, (x, f) in enumerate(fsts):
        ctx.saw('wrapper')
        y = (F.best(iso, w) or w) if k == 3 else w
        want = F.best(f, y)
        got, err = call(x.ApplyOnText, y, {'input': far.FstInputError})
        if want is None:
          ctx.expect(err == 'input', 'apply:error', 'no FstInputError for '
                     'text outside of the domain', text=ascii(y),
                     got=ascii((got, err)))
        else:
          tie = F.outputs(f, y, n=2)
          if len(tie) > 1 and abs(tie[1][1] - tie[0][1]) < 1e-6:
            continue
          ctx.expect(got == want and not err, 'apply:text',
                     'ApplyOnText does not give the best result',
                     text=ascii(y), got=ascii((got, err)), want=ascii(want))
  for bad in ['', 'xx', 'Latn', 'BRAHMIC', 'Arab', 'from_deva', ' Deva']:
    for _ in range(3):
      ctx.saw('unknown')
      try:
        api.NormalizingAcceptor(bad)
        r = 'accepted'
      except api.ScriptError:
        r = None
      except Exception as e:  # pylint: disable=broad-except
        r = repr(e)
      ctx.expect(r is None, 'unknown-script',
                 'no ScriptError for an unknown script', script=bad, got=r)


def archives(ctx):
  """Archives and rules of one name: each wrapper is of its own archive."""
  import pynini  # pylint: disable=g-import-not-at-top
  from nisaba.scripts.utils import far  # pylint: disable=g-import-not-at-top
  rng = ctx.rng
  alpha = 'ab[]\\क'
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p08-')

  def texts(n, k=3):
    return [''.join(rng.choice(alpha) for _ in range(rng.randint(0, k)))
            for _ in range(n)]

  try:
    fars = []
    for d in range(3):
      name = os.path.join(tmp, str(d), rng.choice(['x.far', 'y.far']))
      os.makedirs(os.path.dirname(name), exist_ok=True)
      rules = {}
      with pynini.Far(name, 'w') as out:
        for r in sorted(rng.sample(['DEVA', 'BRAHMIC', 'T', 'UR'], 3)):
          pairs = {a: b if r != 'T' else a
                   for a, b in zip(texts(4), texts(4, 4))}
          out.add(r, pynini.string_map(
              [(pynini.escape(a), pynini.escape(b)) for a, b in pairs.items()]))
          rules[r] = pairs
      fars.append((far.Far(pathlib.Path(name) if rng.random() < .5 else name),
                   rules))
    # Used in turn: nothing may depend on which was used before.
    for _ in range(ctx.n(60, 120)):
      f, rules = rng.choice(fars)
      r = rng.choice(['DEVA', 'BRAHMIC', 'T', 'UR', 'none'])
      ctx.saw('archives')
      got, err = call(f.Fst, r, {'missing': KeyError})
      if not ctx.expect(err == (None if r in rules else 'missing'), 'archive',
                        'a rule is found exactly if the archive has it',
                        rule=r, rules=ascii(rules), got=ascii((got, err))):
        continue
      if err:
        continue
      x = rng.choice(list(rules[r]) + texts(1))
      want = rules[r].get(x)
      y, err = call(got.ApplyOnText, x, {'input': far.FstInputError})
      ctx.expect((y, err) == (want, None if x in rules[r] else 'input'),
                 'archive:apply', 'not what the rule of this archive says',
                 rule=r, rules=ascii(rules), text=ascii(x),
                 got=ascii((y, err)), want=ascii(want))
      if r == 'T':
        y, err = call(got.AcceptText, x, {})
        ctx.expect((y, err) == (x in rules[r], None), 'archive:accept',
                   'not what the rule of this archive accepts', rule=r,
                   rules=ascii(rules), text=ascii(x), got=ascii((y, err)))
  finally:
    shutil.rmtree(tmp, True)


def abjad(ctx, part):
  from nisaba.scripts import abjad_alphabet as api  # pylint: disable=g-import-not-at-top
  from nisaba.scripts.utils import far  # pylint: disable=g-import-not-at-top
  rng = ctx.rng
  errors = {'input': far.FstInputError, 'tag': api.TagError}

  def make(name, ignore):
    if ignore is None:
      return api.Normalizer(name)
    return api.Normalizer(name, ignore)

  for i, l in enumerate(A.LANGS):
    if i % 5 != part:
      continue
    words, one = abjad_setup(rng, l)
    name = rng.choice([l, l.upper()])
    drive(ctx, name, make, errors, words, one)
    fsts = [(api.Nfc(), F.fst(F.AB + 'nfc', 'ARAB')),
            (api.VisualNorm(name), F.fst(F.AB + 'visual_norm', l)),
            (api.ReadingNorm(name), F.fst(F.AB + 'reading_norm', l)),
            (api.FromReversibleRoman(),
             F.fst(F.AB + 'reversible_roman', 'TO_ARAB'))]
    roman = F.fst(F.AB + 'reversible_roman', 'FROM_ARAB')
    for _ in range(ctx.n(60, 1000)):
      w = words()
      for k, (x, f) in enumerate(fsts):
        ctx.saw('wrapper')
        y = (F.best(roman, w) or w) if k == 3 else w
        want = F.best(f, y)
        got = call(x.ApplyOnText, y, {'input': far.FstInputError})
        ctx.expect(got == ((want, None) if want is not None
                           else (None, 'input')), 'apply:abjad',
                   'ApplyOnText does not give the result', text=ascii(y),
                   got=ascii(got), want=ascii(want))
  for bad in ['', 'xx', 'arab', 'Deva', ' ur', 'en']:
    for _ in range(3):
      ctx.saw('unknown')
      try:
        api.Normalizer(bad)
        r = 'accepted'
      except api.TagError:
        r = None
      except Exception as e:  # pylint: disable=broad-except
        r = repr(e)
      ctx.expect(r is None, 'unknown-tag', 'no TagError for an unknown tag',
                 tag=bad, got=r)
  if not part:
    default = api.Normalizer()
    words, one = abjad_setup(rng, 'ur')
    for _ in range(50):
      w = words()
      got = call(default.ApplyOnWord, w, errors)
      ctx.expect(got == one(w), 'default-tag', 'the default is not Urdu',
                 text=ascii(w), got=ascii(got), want=ascii(one(w)))


def threads(ctx):
  """Shared normalizers, used from several threads at once."""
  from nisaba.scripts import abjad_alphabet as ab  # pylint: disable=g-import-not-at-top
  from nisaba.scripts import brahmic as br  # pylint: disable=g-import-not-at-top
  from nisaba.scripts.utils import far  # pylint: disable=g-import-not-at-top
  rng = ctx.rng
  sys.setswitchinterval(1e-5)
  errors = {'ill-formed': br.IllFormedError, 'input': far.FstInputError}
  scripts = rng.sample(B.BRAHMIC, 4)
  for _ in range(ctx.n(3, 20)):
    jobs = []
    for s in scripts:
      words, one = brahmic_setup(rng, s)
      line = Line(rng, words)
      for _ in range(ctx.n(80, 150)):
        x = line.make(string.whitespace)
        jobs.append((s, x, expected(x, string.whitespace, one)))
    words, one = abjad_setup(rng, 'ur')
    line = Line(rng, words)
    for _ in range(ctx.n(80, 150)):
      x = line.make(string.whitespace)
      jobs.append(('ur', x, expected(x, string.whitespace, one)))
    rng.shuffle(jobs)
    # Forgets archives already open, so that threads race to load them.
    far.Far._LoadFar.cache_clear() if hasattr(
        getattr(far.Far, '_LoadFar', None), 'cache_clear') else None

    # Some jobs share one normalizer, others make their own.
    shared = {s: br.NormalizingAcceptor(s) for s in scripts}
    shared['ur'] = ab.Normalizer('ur')

    def run(job):
      s, x, _ = job
      with lock:
        own = pick.random() < .3
      if not own:
        norm = shared[s]
      else:
        norm = ab.Normalizer(s) if s == 'ur' else br.NormalizingAcceptor(s)
      return call(norm.ApplyOnText, x, errors)

    # Injected delays: between any two lines of the repository's own code a
    # thread may be held while others run.
    lock, pick = threading.Lock(), random.Random(rng.random())
    where = os.sep + 'nisaba' + os.sep + 'scripts' + os.sep

    def tracer(frame, event, arg):
      del arg
      if where not in frame.f_code.co_filename:
        return None
      if event == 'line':
        with lock:
          hold = pick.random() < .08
        if hold:
          held.add((frame.f_code.co_name, frame.f_lineno))
          time.sleep(.0005)
      return tracer

    held = set()
    with concurrent.futures.ThreadPoolExecutor(
        8, initializer=lambda: sys.settrace(tracer)) as ex:
      for job, got in zip(jobs, ex.map(run, jobs)):
        ctx.saw('threads')
        ctx.case(('threads', job[:2]), True, sample=[job[0], ascii(job[1])])
        ctx.expect(got == job[2], 'threads', 'another result when used from '
                   'several threads', script=job[0], text=ascii(job[1]),
                   got=ascii(got), want=ascii(job[2]))
    ctx.saw('points where a thread was held', len(held))
