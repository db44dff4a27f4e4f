"""P11: tables of Unicode strings hold what their text protos say."""

import os
import re
import subprocess
import sys
import tempfile
import unicodedata

import nbuild

U = '//nisaba/scripts/utils:'


def LABELS():
  d = nbuild.load()
  return [U + 'unicode_strings_to_tsv', U + 'letter_languages'] + sorted(
      o for o in d.OUTPUTS if re.search(r':combined_[^/]*\.textproto$', o)
      or o.endswith('.tsv')) + ['//nisaba/scripts/abjad_alphabet/data/Arab:'
                                'letter_languages.textproto']


RULE = ('random protos of 1-8 items: characters, aliases and named sequences '
        'by name with 0-3 prefixes, raw text, both, mappings, and items that '
        'must be refused; a case is one item in its context of prefixes, '
        'non-trivial when it has two or more characters or is refused')
ASSUMPTIONS = ['unicodedata.name is right about the name of each character',
               'text_format of the protobuf library is right',
               'raw text has no tab, line break or leading # (a table cannot '
               'hold those)']
SCALE = 3  # Of the quick tier.
REQUIRED = {'items': 10000, 'refused': 2500, 'tables': 120, 'rows': 3000,
            'read': 3000, 'letters': 3000, 'process': 12, 'sequences': 400,
            'controls': 300, 'rows_by_process': 30}

ALIASES = {
    'KANNADA LETTER LLLA': '\u0cde', 'LAO LETTER FO FON': '\u0e9d',
    'LATIN SMALL LETTER GHA': '\u01a3', 'LATIN CAPITAL LETTER GHA': '\u01a2',
    'WEIERSTRASS ELLIPTIC FUNCTION': '\u2118',
    'MYANMAR LETTER KHAMTI LLA': '\uaa6e',
    'YI SYLLABLE ITERATION MARK': '\ua015', 'NBSP': '\xa0', 'ZWJ': '\u200d',
    'ZWNJ': '\u200c', 'BOM': '\ufeff', 'SHY': '\xad', 'CGJ': '\u034f',
    'RLM': '\u200f', 'ZWSP': '\u200b',
}
CONTROLS = ('NULL SOH STX ETX EOT ENQ ACK BEL BS HT LF VT FF CR SO SI DLE DC1 '
            'NAK SYN ETB CAN EM SUB ESC FS GS RS US DEL NEL RI SS2 DCS PM ST '
            'CCH MW IND TAB').split() + ['LINE FEED', 'CARRIAGE RETURN',
                                         'BACKSPACE', 'SHIFT OUT']

_names = {}


def names():
  if not _names:
    for i in range(0x20, 0x110000):
      c = chr(i)
      n = unicodedata.name(c, None)
      if n:
        _names[n] = c
    _names.update(ALIASES)
    seq = {}
    signs = {n[len('TAMIL VOWEL SIGN '):]: c for n, c in _names.items()
             if n.startswith('TAMIL VOWEL SIGN ')}
    for n, c in list(_names.items()):
      m = re.fullmatch(r'TAMIL LETTER ([CKNTPMYRLVSJH]\w*A)', n)
      if m and c not in '\u0b83':
        base = m.group(1)[:-1]
        seq['TAMIL CONSONANT ' + base] = c + '\u0bcd'
        for v, s in signs.items():
          seq['TAMIL SYLLABLE ' + base + v] = c + s
    # Only those which this version of Unicode knows.
    for n, s in seq.items():
      try:
        if unicodedata.lookup(n) == s:
          _names[n] = s
      except KeyError:
        pass
    _names['\0seq'] = sorted(n for n in seq if n in _names)
  return _names


class Refused(Exception):
  pass


def resolve(prefixes, name):
  t = names()
  got = set()
  for p in set(prefixes) | {''}:
    n = (p + ' ' + name if p else name).upper()
    if n not in t:
      # Other named sequences, which unicodedata does not enumerate.
      try:
        s = unicodedata.lookup(n)
      except KeyError:
        continue
      if len(s) < 2:
        continue
      t[n] = s
    got.add(n)
  if len(got) != 1:
    raise Refused(sorted(got))
  return t[got.pop()]


def text(prefixes, uname, raw):
  if uname:
    s = ''.join(resolve(prefixes, n) for n in uname)
    if raw and raw != s:
      raise Refused('mismatch')
    return s
  return raw


def item(pb, it):
  up, tp = list(pb.uname_prefix), list(pb.to_uname_prefix)
  if not it.uname and not it.raw:
    raise Refused('no source')
  a = text(up, it.uname, it.raw)
  if not it.to_uname and not it.to_raw:
    return a, None
  return a, text(tp or up, it.to_uname, it.to_raw)


def table(pb):
  out = []
  for it in pb.item:
    a, b = item(pb, it)
    out.append(a if b is None else a + '\t' + b)
  return out


def shards(tier):
  return ['random%d' % i for i in range(4)] + ['letters', 'committed',
                                               'process']


def work(ctx, shard):
  {'r': randoms, 'l': letters, 'c': committed, 'p': process}[shard[0]](ctx)


class Gen:

  def __init__(self, rng):
    self.rng = rng
    t = names()
    self.seq = t['\0seq']
    # Names made by rule, which would drown the others (and which Python
    # knows in capitals only).
    self.all = [n for n in t if n != '\0seq' and not n.startswith(
        ('CJK ', 'HANGUL SYLLABLE', 'TANGUT ', 'EGYPTIAN ', 'CUNEIFORM ',
         'ANATOLIAN ', 'KHITAN ', 'NUSHU '))]
    self.ruled = sorted(n for n in t if n.startswith(
        ('CJK UNIFIED IDEOGRAPH-', 'HANGUL SYLLABLE ')))
    self.blocks = {}
    for n in self.all:
      w = n.split()
      for k in (1, 2, 3):
        if len(w) > k:
          self.blocks.setdefault(' '.join(w[:k]), []).append(
              ' '.join(w[k:]))
    self.prefixes = sorted(p for p, v in self.blocks.items() if len(v) > 12)
    self.brahmic = [p for p in self.prefixes if p.split()[0] in (
        'DEVANAGARI BENGALI TAMIL TELUGU KANNADA MALAYALAM SINHALA THAANA '
        'ARABIC LATIN BRAHMI HIRAGANA YI GREEK').split()]
    self.raws = [c for n, c in t.items() if n != '\0seq' and
                 c not in '#\xa0' and not c.isspace()]

  def prefix(self):
    rng = self.rng
    return rng.choice(self.brahmic if rng.random() < .8 else self.prefixes)

  def case(self, s):
    r = self.rng.random()
    if 'CJK ' in s or 'HANGUL ' in s:
      return s
    return s.lower() if r < .06 else s.title() if r < .1 else s

  def name(self, prefixes):
    rng = self.rng
    r = rng.random()
    if prefixes and r < .55:
      return self.case(rng.choice(self.blocks[rng.choice(prefixes)]))
    if r < .64:
      n = rng.choice(self.seq)
      return n[6:] if 'TAMIL' in prefixes and rng.random() < .5 else n
    if r < .70:
      return rng.choice(sorted(ALIASES))
    if r < .76:
      return rng.choice(CONTROLS)
    if r < .79:
      return self.case(rng.choice(self.all)) + rng.choice(['X', ' Q', ''])
    if r < .81:
      return rng.choice(self.ruled)
    return self.case(rng.choice(self.all))

  def side(self, prefixes, required):
    """uname and raw of one side."""
    rng = self.rng
    r = rng.random()
    if not required and r < .4:
      return [], ''
    if required and r < .02:
      return [], ''
    un = [self.name(prefixes) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    if rng.random() < .3:
      return [], ''.join(rng.choice(self.raws)
                         for _ in range(rng.randint(1, 3)))
    if rng.random() < .5:
      try:
        raw = text(prefixes, un, '')
      except Refused:
        raw = rng.choice(self.raws)
      r = rng.random()
      if r < .08:
        raw = raw + rng.choice(self.raws)
      elif r < .12 and len(raw) > 1:
        raw = raw[::-1]
      elif r < .15:
        raw = raw[:-1] or '\ue000'
      elif r < .18:
        raw = unicodedata.normalize('NFD', raw)
      return un, raw
    return un, ''

  def proto(self, pb, items):
    rng = self.rng
    up = [self.prefix() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    tp = [self.prefix() for _ in range(rng.choice([0, 0, 1, 2]))]
    if up and rng.random() < .1:
      up.append(up[0])
    pb.uname_prefix.extend(up)
    pb.to_uname_prefix.extend(tp)
    for _ in range(items):
      it = pb.item.add()
      un, raw = self.side(up, True)
      it.uname.extend(un)
      it.raw = raw
      un, raw = self.side(tp or up, False)
      it.to_uname.extend(un)
      it.to_raw = raw


def only(pb, keep):
  q = type(pb)()
  q.uname_prefix.extend(pb.uname_prefix)
  q.to_uname_prefix.extend(pb.to_uname_prefix)
  for it in keep:
    q.item.add().CopyFrom(it)
  return q


def body(lines, exp):
  """Whether these are comments, then the expected rows."""
  k = len(lines) - len(exp)
  return k >= 0 and lines[k:] == exp and all(l.startswith('#')
                                             for l in lines[:k])


def randoms(ctx):
  from absl import flags
  from google.protobuf import text_format
  from nisaba.scripts.utils import unicode_strings_pb2 as pb2
  from nisaba.scripts.utils import unicode_strings_to_tsv as tool
  from nisaba.scripts.utils import unicode_strings_util as lib
  rng = ctx.rng
  g = Gen(rng)
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p11-')
  src, dst = tmp + '/in.textproto', tmp + '/out.tsv'
  flags.FLAGS(['x', '--input_text_proto=' + src, '--output_tsv=' + dst])
  try:
    for _ in range(ctx.n(3000, 25000)):
      pb = pb2.UnicodeStrings()
      g.proto(pb, rng.randint(1, 8))
      good = []
      for it in pb.item:
        try:
          exp = item(pb, it)
        except Refused as e:
          exp = None
          why = e.args[0]
        key = (tuple(sorted(set(pb.uname_prefix))),
               tuple(sorted(set(pb.to_uname_prefix))),
               it.SerializeToString(deterministic=True))
        ctx.case(key, exp is None or len(exp[0]) + len(exp[1] or '') > 1,
                 sample=str(it))
        ctx.saw('items')
        if any(n.upper() in g.seq or 'TAMIL ' + n.upper() in g.seq
               for n in it.uname):
          ctx.saw('sequences')
        if any(n in CONTROLS for n in list(it.uname) + list(it.to_uname)):
          ctx.saw('controls')
        try:
          got = lib.convert_item(list(pb.uname_prefix),
                                 list(pb.to_uname_prefix), it)
        except ValueError:
          got = None
        ctx.expect(got == exp, 'item' if exp else 'accepted',
                   'the strings of an item are not what it says' if exp else
                   'an item that has no right reading was accepted',
                   item=str(it), prefixes=list(pb.uname_prefix),
                   to_prefixes=list(pb.to_uname_prefix), expected=exp,
                   got=got)
        if exp:
          good.append(it)
        else:
          ctx.saw('refused')
      # Whole files.
      bad = len(good) < len(pb.item)
      q = pb if rng.random() < .3 else only(pb, good)
      with open(src, 'w', encoding='utf8') as f:
        f.write(text_format.MessageToString(q, as_utf8=rng.random() < .5))
      try:
        exp = table(q)
      except Refused:
        exp = None
      try:
        tool.main(['x'])
        with open(dst, encoding='utf8', newline='') as f:
          got = f.read()
      except ValueError:
        got = None
      if exp is None:
        ctx.expect(got is None, 'file-accepted',
                   'a file with an item that has no right reading was '
                   'converted', proto=str(q), got=got)
      else:
        lines = (got or '').split('\n')
        ok = (got is not None and lines[-1] == '' and
              body(lines[:-1], exp))
        ctx.expect(ok, 'file', 'the table of a file is not what its items say, '
                   'in their order', proto=str(q), expected=exp, got=got)
        ctx.saw('rows', len(exp))
      # Reading.
      try:
        got = lib.read_textproto(src)
      except ValueError:
        got = None
      if exp is None:
        ctx.expect(got is None, 'read-accepted', 'a file with a bad item was '
                   'read', proto=str(q))
      else:
        want = type(q)()
        want.CopyFrom(q)
        for it in want.item:
          a, b = item(q, it)
          it.raw = a
          it.to_raw = b or ''
        ctx.expect(got == want, 'read', 'reading a file does not fill in '
                   'exactly the missing raw text', proto=str(q),
                   got=str(got))
        ctx.saw('read', len(q.item))
  finally:
    subprocess.call(['/bin/rm', '-rf', tmp])


def letters(ctx):
  from google.protobuf import text_format
  from nisaba.scripts.utils import letter_languages as ll
  from nisaba.scripts.utils import letter_languages_pb2 as pb2
  rng = ctx.rng
  g = Gen(rng)
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p11-')
  src = tmp + '/in.textproto'
  try:
    for _ in range(ctx.n(2500, 15000)):
      up = [g.prefix() for _ in range(rng.choice([0, 1, 2]))]
      pb = pb2.LetterLanguages(uname_prefix=up)
      want = pb2.LetterLanguages(uname_prefix=up)
      bad = False
      for _ in range(rng.randint(1, 10)):
        un, raw = g.side(up, True)
        it = pb.item.add()
        it.letter.uname.extend(un)
        it.letter.raw = raw
        it.language.extend(rng.sample(['ur', 'fa', 'ku', 'ug'], 2))
        it.region.extend(rng.sample(['PK', 'IR', 'CN'], rng.randint(0, 2)))
        try:
          if not un and not raw:
            raise Refused()
          s = text(up, un, raw)
        except Refused:
          if rng.random() < .9:
            del pb.item[-1]
          else:
            bad = True
          continue
        w = want.item.add()
        w.CopyFrom(it)
        w.letter.raw = s
      with open(src, 'w', encoding='utf8') as f:
        f.write(text_format.MessageToString(pb, as_utf8=rng.random() < .5))
      try:
        got = ll.read_textproto(src)
      except ValueError:
        got = None
      ctx.case(pb.SerializeToString(deterministic=True), len(pb.item) > 1,
               sample=str(pb)[:200])
      ctx.saw('letters', len(pb.item))
      if bad:
        ctx.expect(got is None, 'letters-accepted', 'a bad letter was read',
                   proto=str(pb))
      else:
        ctx.expect(got == want, 'letters', 'reading letters does not fill in '
                   'exactly the missing raw text', proto=str(pb),
                   got=str(got))
  finally:
    subprocess.call(['/bin/rm', '-rf', tmp])


def committed(ctx):
  """Every table of the tree, against the protos it is made from."""
  from google.protobuf import text_format
  from nisaba.scripts.utils import unicode_strings_pb2 as pb2
  n = 0
  for root, _, files in os.walk('nisaba'):
    for x in sorted(files):
      m = re.fullmatch(r'combined_(.*)\.textproto', x)
      if not m:
        continue
      tsv = os.path.join(root, m.group(1) + '.tsv')
      if not os.path.exists(tsv):
        continue
      with open(os.path.join(root, x), encoding='utf8') as f:
        pb = text_format.Parse(f.read(), pb2.UnicodeStrings())
      with open(tsv, encoding='utf8', newline='') as f:
        got = [l for l in f.read().split('\n') if l and not l.startswith('#')]
      try:
        exp = table(pb)
      except Refused as e:
        exp = 'refused: %r' % (e.args,)
      ctx.case(tsv, len(got) > 1, sample=[tsv, len(got)])
      ctx.saw('tables')
      ctx.saw('rows', len(got))
      if got != exp:
        diff = [(i, a, b) for i, (a, b) in enumerate(zip(got, exp)) if a != b
               ] if isinstance(exp, list) else exp
        ctx.violate('table:' + tsv, 'a table of the tree is not what its text '
                    'proto says', table=tsv, diff=diff[:5],
                    lengths=[len(got), len(exp)])


def process(ctx):
  """The tool as a process: exit status, and nothing depends on hashing."""
  from google.protobuf import text_format
  from nisaba.scripts.utils import unicode_strings_pb2 as pb2
  rng = ctx.rng
  g = Gen(rng)
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p11-')
  src, dst = tmp + '/in.textproto', tmp + '/out.tsv'
  try:
    for i in range(ctx.n(20, 150)):
      pb = pb2.UnicodeStrings()
      g.proto(pb, rng.randint(6, 16))
      if i % 3:
        keep = []
        for it in pb.item:
          try:
            item(pb, it)
            keep.append(it)
          except Refused:
            pass
        pb = only(pb, keep)
      try:
        exp = table(pb)
      except Refused:
        exp = None
      with open(src, 'w', encoding='utf8') as f:
        f.write(text_format.MessageToString(pb))
      if os.path.exists(dst):
        os.unlink(dst)
      env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10**6)))
      env['LC_ALL'] = rng.choice(['C', 'C.UTF-8', 'POSIX'])
      p = subprocess.run(
          [sys.executable, '-P', 'nisaba/scripts/utils/'
           'unicode_strings_to_tsv.py', '--input_text_proto', src,
           '--output_tsv', dst], env=env, capture_output=True)
      ctx.case(('process', pb.SerializeToString(deterministic=True)),
               True, sample=['process', len(pb.item)])
      ctx.saw('process')
      if exp is None:
        ctx.expect(p.returncode != 0, 'exit-status', 'the converter succeeded '
                   'on a file with a bad item', proto=str(pb))
      else:
        got = open(dst, encoding='utf8', newline='').read() if os.path.exists(
            dst) else ''
        rows = got.split('\n')[:-1]
        ctx.saw('rows_by_process', len(rows))
        ctx.expect(p.returncode == 0 and body(rows, exp), 'process',
                   'the converter, run as a process, does not write what the '
                   'items say', proto=str(pb), code=p.returncode, got=rows,
                   err=p.stderr.decode('utf8', 'replace')[-300:])
  finally:
    subprocess.call(['/bin/rm', '-rf', tmp])
