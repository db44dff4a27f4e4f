"""P25: the tools for testing grammars and statuses pass exactly what is right."""

import os
import random
import re
import shutil
import tempfile

import cppbuild
from checks import p22

LABELS = ['//nisaba/scripts/utils:test_util',
          '//nisaba/scripts/natural_translit/utils:test_op']
TESTING = 'nisaba/interim/testing/'
RULE = ('random archives of rules with text protos of tests which are right or '
        'slightly wrong, in every mode and token type; random statuses; random '
        'transducers made from tables, and of any form, with right and wrong '
        'claims; a case is one run of a tool, non-trivial when some rule '
        'accepts or some claim is about a machine with paths')
ASSUMPTIONS = ['the installed releases of OpenFst and of the protocol buffers '
               'behave like those that the repository is built with',
               'a test that samples is decided if all inputs, or none, are '
               'right, and these have at most five labels',
               'each test of a text proto has a rule, and no test of "top" '
               'names one of several best outputs',
               'StatusIs(), which is declared but not implemented, is not '
               'decided']
REQUIRED = {'runs': 600, 'right': 150, 'wrong': 150, 'mode exact': 80,
            'mode one_top': 80, 'mode top': 80, 'mode subset': 80,
            'utf8': 150, 'cascades': 150, 'rejects': 80, 'endless': 5,
            'bad runs': 40, 'differences': 8, 'copies': 100, 'faults': 20,
            'statuses': 300, 'properties': 1500, 'io right': 700,
            'io wrong': 700, 'sampled right': 400, 'sampled wrong': 300,
            'tables right': 300, 'tables wrong': 300, 'equal': 1200,
            'stubs': 500}
MODES = ['exact', 'one_top', 'subset', 'top']


def shards(tier):
  return ['textproto%d' % i for i in range(3)] + ['status'] + [
      'python%d' % i for i in range(3)]


def prepare(built, tier):
  code = [TESTING + 'testdata.cc', TESTING + 'testdata.pb.cc'] + [
      'nisaba/port/%s.cc' % x for x in ('file', 'file_util',
                                        'proto_file_stream')]
  flags = cppbuild.LEAN + cppbuild.OPENFST18 + ['-I' + cppbuild.CPP + '/shimpb']
  libs = ['-lgmock', '-lgtest', '-lfstfarscript', '-lfstscript', '-lfstfar',
          '-lfst', '-lprotobuf']
  cppbuild.build({
      'textproto': ([TESTING + 'test_textproto.cc'] + code, flags, libs),
      'testing': (['testing_driver.cc'] + code, flags, libs)},
                 built.env, views=True, protos=[TESTING + 'testdata.proto'])


def work(ctx, shard):
  tmp = tempfile.mkdtemp(prefix='nisaba-verif-p25-')
  try:
    if shard.startswith('textproto'):
      textprotos(ctx, tmp)
    elif shard == 'status':
      status(ctx, tmp)
    else:
      python(ctx)
  finally:
    shutil.rmtree(tmp, True)


# ---- Text protos.


def quoted(text):
  """A string of a text proto, from bytes."""
  r = ''
  for x in text:
    c = chr(x)
    r += c if c.isalnum() and x < 128 else '\\%03o' % x
  return '"%s"' % r


def field(rng, name, text):
  if isinstance(text, str):
    text = text.encode('utf8')
  return '%s: %s' % (name, quoted(text))


def proto(rng, rewrites, comment=None):
  """The text of a file: [(rules, input, outputs, comment)]."""
  out = ['# proto-file: third_party/nisaba/interim/testing/testdata.proto\n']
  if comment is not None:
    out.append(field(rng, 'comment', comment) + '\n')
  for rules, text, outputs, note in rewrites:
    fields = [field(rng, 'rule', r) for r in rules] + [
        field(rng, 'output', o) for o in outputs]
    if text or rng.random() < .5:
      fields.insert(rng.choice([0, len(rules)]), field(rng, 'input', text))
    if note is not None:
      fields.insert(0, field(rng, 'comment', note))
    sep = rng.choice(['\n  ', ' '])
    out.append('rewrite {' + sep + sep.join(fields) + '\n}\n')
  return ''.join(out)


class Codepoints(p22.Archive):
  """An archive of rules for text of other than bytes."""

  def rule(self):
    if min(self.alphabet) >= 0 and not hasattr(self, 'wide'):
      self.wide = True
      self.alphabet = self.rng.sample(
          [97, 98, 0xe9, 0x915, 0x94d, 0x200d, 0x1f600, 0x22], 3)
      self.symbols = {}
    return super().rule()


class Bytes(p22.Archive):

  def rule(self):
    self.symbols = {}
    if 1 in self.alphabet or 0x20 in self.alphabet:
      self.alphabet = self.rng.sample([97, 98, 0xe0, 0xa4, 0xff, 0x22], 3)
    return super().rule()


def textprotos(ctx, tmp):
  rng = ctx.rng
  path = os.path.join(tmp, 'a.far')
  test = os.path.join(tmp, 'a.textproto')
  for k in range(ctx.n(30, 400)):
    kind = rng.choice(['byte', 'utf8'])
    archive = (Codepoints if kind == 'utf8' else Bytes)(rng, path)
    for _ in range(10):
      one_textproto(ctx, archive, kind, test)


def encoded(labels, kind):
  if kind == 'utf8':
    return ''.join(map(chr, labels)).encode('utf8')
  return bytes(labels)


def cascade(archive, rules, text):
  """Outputs of rules and whether there are endlessly many."""
  outputs = {text: 0}
  infinite = False
  for r in rules:
    m = archive.rules[r]
    if any(p22.endless(m, x) for x in outputs):
      if r is not rules[-1]:
        raise p22.TooMany()
      infinite = True
    outputs = p22.apply(m, outputs, limit=p22.LIMIT if infinite else 150)
    if len(outputs) > 40:
      raise p22.TooMany()
    if not outputs:
      break
  if infinite and (not outputs or min(outputs.values()) > p22.LIMIT - 4):
    raise p22.TooMany()
  return outputs, infinite


def verdict(mode, outputs, infinite, expected):
  """Whether a test passes; None if it depends."""
  best = min(outputs.values()) if outputs else None
  tops = [o for o, w in outputs.items() if w == best]
  if not expected:
    return not outputs
  if not outputs:
    return False
  if mode == 'exact':
    return not infinite and sorted(expected) == sorted(outputs)
  if mode == 'subset':
    return (not infinite and set(expected) <= set(outputs)
            and len(set(expected)) == len(expected))
  if len(expected) != 1:
    return False
  if mode == 'one_top':
    return len(tops) == 1 and expected == tops
  if mode == 'top':
    if expected[0] not in tops:
      return False
    return True if len(tops) == 1 else None
  return False


def claim(rng, archive, mode, outputs):
  """Expected outputs, right or nearly so."""
  have = sorted(outputs)
  best = min(outputs.values()) if outputs else None
  tops = sorted(o for o, w in outputs.items() if w == best)
  if mode in ('exact', 'subset'):
    want = list(have)
    if mode == 'subset' and want:
      want = rng.sample(want, rng.randint(1, len(want)))
    rng.shuffle(want)
  else:
    want = [rng.choice(tops)] if tops else []
  if rng.random() < .4:  # Wrong, usually.
    how = rng.choice(['drop', 'add', 'change', 'none', 'twice', 'worse'])
    if how == 'drop' and want:
      want.pop(rng.randrange(len(want)))
    elif how == 'add':
      want.insert(rng.randint(0, len(want)), archive.text(rng))
    elif how == 'change' and want:
      want[rng.randrange(len(want))] = archive.text(rng)
    elif how == 'none':
      want = []
    elif how == 'twice' and want:
      want.append(rng.choice(want))
    elif how == 'worse' and have:
      want[:1] = [rng.choice(have)]
  return want


def one_textproto(ctx, archive, kind, test):
  rng = ctx.rng
  mode = rng.choice(MODES)
  names = sorted(n for n in archive.rules if not n.startswith('BR'))
  rewrites, results, shown = [], [], []
  for _ in range(rng.choice([1, 1, 2, 3])):
    rules = [rng.choice(names) for _ in range(rng.choice([1, 1, 2]))]
    text = archive.text(rng)
    try:
      outputs, infinite = cascade(archive, rules, text)
    except p22.TooMany:
      continue
    want = claim(rng, archive, mode, outputs)
    if len(set(map(lambda x: encoded(x, kind), outputs))) != len(outputs):
      continue
    v = verdict(mode, outputs, infinite, want)
    if v is None:
      continue
    if infinite:
      ctx.saw('endless')
    if len(rules) > 1:
      ctx.saw('cascades')
    if not outputs:
      ctx.saw('rejects')
    rewrites.append((rules, encoded(text, kind),
                     [encoded(o, kind) for o in want],
                     rng.choice([None, None, 'a "note"', ''])))
    results.append(v)
    # Endlessly many are refused.
    shown.append([] if infinite else [encoded(o, kind) for o in outputs])
  if not rewrites:
    return
  want = all(results)
  args = {'far_path': archive.path, 'textproto_path': test, 'mode': mode,
          'token_type': kind}
  fault = None
  if rng.random() < .1:
    fault = rng.choice(['far', 'proto', 'broken', 'mode', 'token', 'rule'])
    if fault == 'far':
      args['far_path'] += '.none'
    elif fault == 'proto':
      args['textproto_path'] += '.none'
    elif fault == 'mode':
      args['mode'] = rng.choice(['exactly', 'Top', 'none'])
    elif fault == 'token':
      args['token_type'] = rng.choice(['bytes', 'UTF-8', 'none'])
    elif fault == 'rule':
      rewrites[0] = (['no such rule'],) + rewrites[0][1:]
    if fault != 'mode' or any(r[2] for r in rewrites):
      want = False
  text = proto(rng, rewrites, rng.choice([None, 'comment']))
  if fault == 'broken':
    text += rng.choice(['rewrite {', 'nonesuch: 1', 'rewrite { input: 3 }'])
  with open(test, 'w') as f:
    f.write(text)
  if args['mode'] == 'exact' and rng.random() < .3:
    del args['mode']
  if args['token_type'] == 'byte' and rng.random() < .3:
    del args['token_type']
  args = ['--%s=%s' % x for x in args.items()]
  rng.shuffle(args)
  p = cppbuild.run('textproto', args)
  out = p.stdout.decode('utf8', 'replace')
  ctx.saw('runs')
  ctx.saw('mode ' + mode)
  ctx.saw('right' if want else 'wrong')
  if kind == 'utf8':
    ctx.saw('utf8')
  if fault:
    ctx.saw('bad runs')
  ctx.case((mode, kind, text, sorted(archive.rules)), any(shown))
  detail = dict(mode=mode, token_type=kind, fault=fault, rewrites=rewrites,
                outputs=shown, code=p.returncode, out=out[-1500:],
                err=p.stderr[-800:].decode('utf8', 'replace'),
                machines={r: archive.rules[r].line() for w in rewrites
                          for r in w[0] if r in archive.rules})
  if p.returncode == cppbuild.SANITIZER:
    return ctx.violate('textproto-sanitizer', 'there is no undefined behaviour',
                       **detail)
  ctx.expect((p.returncode == 0) == want,
             'textproto-passes' if not want else 'textproto-fails',
             'the test of a text proto passes exactly if the rules give the '
             'outputs that it names, in its mode', **detail)
  ctx.expect(not want or '[  PASSED  ] 1 test.' in out, 'textproto-ran',
             'the test ran', **detail)
  if not fault and mode in ('exact', 'subset') and not want:
    messages(ctx, out, mode, kind, rewrites, results, shown, detail)


def messages(ctx, out, mode, kind, rewrites, results, shown, detail):
  """What a failure calls missing and extra."""
  wrong = [(w, have) for w, have, ok in zip(rewrites, shown, results)
           if not ok and w[2] and have]
  if len(wrong) != 1 or len(rewrites) != 1:
    return
  w, have = wrong[0]
  for name, a, b in (('Extra', have, w[2]), ('Missing', w[2], have)):
    m = re.search(name + r' elements: (.*)', out)
    if not m:
      continue
    want = sorted(x.decode('utf8', 'replace') for x in set(a) - set(b))
    if len(set(a)) != len(a) or len(set(b)) != len(b) or any(
        ',' in x or ' ' in x or '\n' in x or '\r' in x or not x.isprintable()
        for x in want):
      continue
    got = sorted(m.group(1).split(', ')) if m.group(1) else []
    ctx.saw('differences')
    ctx.expect(got == want or (want == [''] and not got),
               'textproto-differences',
               'a failure names the outputs that are extra or missing',
               name=name, got=got, want=want, **detail)


# ---- Statuses, and copies of test data.


def hx(s):
  if isinstance(s, str):
    s = s.encode('utf8')
  return 'x' + s.hex()


def status(ctx, tmp):
  rng = ctx.rng
  server = cppbuild.Server('testing')
  for _ in range(ctx.n(400, 4000)):
    code = rng.choice([0, 0] + list(range(1, 17)))
    text = ''.join(rng.choice('ab é%"\n') for _ in range(rng.randint(0, 8)))
    value, want = rng.randrange(5), rng.randrange(5)
    ctx.case(('status', code, text, value, want))
    ctx.saw('statuses')
    detail = dict(code=code, text=text, value=value, want=want)
    try:
      got = server.ask('status %d %s %d %d' % (code, hx(text), value, want))
    except cppbuild.Died as e:
      ctx.violate('status-' + e.kind, 'the matchers and macros end normally',
                  text=e.text[:1500], **detail)
      continue
    ok = code == 0
    s = '%d:%s' % (code, hx(text) if code else 'x')
    v = value if ok else -7
    one = lambda b: '1' if b else '0'
    expected = dict(
        ok=one(ok) * 4,
        holds=one(ok and value == want) * 2 + one(ok and value >= want)
        + one(ok and value == want),
        expect='0,0;0,0;0,0;0,0;4' if ok else '0,1;0,1;1,0;1,0;2',
        assign=('0,0;0,0;' if ok else '1,0;1,0;') + '%d;%d' % (v, v),
        branch='%s;6:%s;1;1' % (s if code else '6:' + hx('end'), hx('end')),
        null='0;1;1' if ok else '3;1;0',
        int='%s;%d;1;%d' % (s, v, ok), unique='%s;%d;1;%d' % (s, v, ok),
        counted='%s;%d;0' % (s, v),
        **{'return': '%s;2;2' % s if ok else '%s;1;0' % s})
    have = dict(f.split('=', 1) for f in got.split(' '))
    for k, w in expected.items():
      if k == 'holds' and not ok:
        w = '0000'
      ctx.expect(have.get(k) == w, 'status-' + k,
                 'statuses are matched, asserted and returned as they are, '
                 'and each expression is evaluated once', part=k,
                 got=have.get(k), expected=w, **detail)
  a, b = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')

  def word():
    return ''.join(rng.choice('ab é"\\\n#क\U0001f600\'') for _ in range(
        rng.choice([0, 1, 3, 3, 8, 200])))
  for _ in range(ctx.n(200, 3000)):
    rewrites = [([word() for _ in range(rng.choice([0, 1, 2]))], word(),
                 [word() for _ in range(rng.choice([0, 1, 2, 9]))],
                 rng.choice([None, word()]))
                for _ in range(rng.choice([0, 1, 2, 5]))]
    comment = rng.choice([None, word()])
    text = proto(rng, rewrites, comment)
    with open(a, 'w') as f:
      f.write(text)

    def dump(r):
      rules, text, outputs, note = r
      lst = lambda xs: ''.join(hx(x) + ',' for x in xs)
      return '%s;%s;%s;%s' % ('-' if note is None else hx(note), hx(text),
                              lst(rules), lst(outputs))
    expected = ' '.join([('-' if comment is None else hx(comment))] + [
        dump(r) for r in rewrites])
    plain = lambda s: s.replace(';-;', ';x;')  # Empty inputs may be left out.
    ctx.case(('copy', text), bool(rewrites))
    detail = dict(text=text[:600])
    try:
      got = server.ask('read ' + hx(a))
      ctx.expect(plain(got) == 'read ' + expected, 'testdata-read',
                 'test data is read as it is in the file', got=got[:600],
                 want=expected[:600], **detail)
      if os.path.exists(b):
        os.unlink(b)
      full = rng.random() < .15
      got = server.ask('copy %s %s' % (hx(a), hx('/dev/full' if full else b)))
      if full:
        ctx.saw('faults')
        ctx.expect(got == 'unwritten', 'testdata-full',
                   'data which cannot be written is an error', got=got,
                   **detail)
        continue
      ctx.saw('copies')
      if not ctx.expect(got == 'written' and os.path.exists(b),
                        'testdata-write', 'test data is written', got=got,
                        **detail):
        continue
      with open(b, encoding='utf8') as f:
        new = f.read()
      got = server.ask('read ' + hx(b))
      ctx.expect(plain(got) == 'read ' + expected, 'testdata-copy',
                 'what is written is read back', got=got[:600],
                 want=expected[:600], new=new[:600], **detail)
      ctx.expect(re.match(r'# proto-file: \S+/testdata\.proto\n'
                          r'# proto-message: Rewrites\n', new),
                 'testdata-header', 'what is written names its message',
                 new=new[:200], **detail)
      broken = rng.choice([None, None, None, 'none', 'broken'])
      if broken:
        ctx.saw('faults')
        with open(a, 'a') as f:
          f.write('rewrite { x }')
        got = server.ask('read ' + hx(a + '.none' if broken == 'none' else a))
        ctx.expect(got == 'unread', 'testdata-fault',
                   'a file which cannot be read is an error', got=got,
                   broken=broken, **detail)
    except cppbuild.Died as e:
      ctx.violate('testdata-' + e.kind, 'reading and writing end normally',
                  error=e.text[:1500], **detail)
  server.close()


# ---- Python.


def outcome(f, *args, **kwargs):
  """None, or the exception."""
  try:
    f(*args, **kwargs)
  except Exception as e:  # pylint: disable=broad-except
    return e
  return None


def decide(ctx, mech, what, want, e, **detail):
  """A claim which is right must pass, and one which is not must fail."""
  if want:
    ctx.expect(e is None, mech + '-fails', what, error=repr(e)[:400], **detail)
  else:
    ctx.expect(e is not None, mech + '-passes', what, **detail)


def python(ctx):
  rng = ctx.rng
  import pynini
  from nisaba.scripts.natural_translit.utils import test_op
  from nisaba.scripts.utils import test_util as tu
  properties(ctx, pynini, tu.FstPropertiesTestCase())
  io = tu.FstTestCase()
  sampled = tu.FstRandgenTestCase()
  for _ in range(ctx.n(600, 8000)):
    strings(ctx, pynini, io)
    machine_tests(ctx, pynini, tu, sampled)
  stubs(ctx, test_op.TestCase())


def properties(ctx, pynini, case):
  rng = ctx.rng
  for _ in range(ctx.n(800, 8000)):
    m = p22.Machine()
    n = rng.choice([1, 2, 3, 4])
    for _ in range(n - 1):
      m.state()
    up = rng.random() < .5
    same = rng.random() < .6
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
      s, t = rng.randrange(n), rng.randrange(n)
      if up and s >= t:
        continue
      i = rng.choice([0, 97, 98, 99])
      o = i if same else rng.choice([0, 97, 98])
      m.arc(s, i, o, rng.choice([0, 0, 0, 1]), t)
    for s in range(n):
      if rng.random() < .5:
        m.finals[s] = rng.choice([0, 0, 0, 2])
    arcs = [(s,) + a for s, x in enumerate(m.arcs) for a in x]
    out = [[a[3] for a in x] for x in m.arcs]
    state = {}

    def loops(s):
      if state.get(s) == 1:
        return True
      if s in state:
        return False
      state[s] = 1
      r = any(loops(t) for t in out[s])
      state[s] = 2
      return r
    cyclic = any([loops(s) for s in range(n)])
    have = {
        'ACCEPTOR': all(a[1] == a[2] for a in arcs),
        'NOT_ACCEPTOR': any(a[1] != a[2] for a in arcs),
        'I_DETERMINISTIC': all(len({a[0] for a in x}) == len(x)
                               for x in m.arcs),
        'NON_I_DETERMINISTIC': any(len({a[0] for a in x}) < len(x)
                                   for x in m.arcs),
        'O_DETERMINISTIC': all(len({a[1] for a in x}) == len(x)
                               for x in m.arcs),
        'NO_EPSILONS': not any(a[1] == a[2] == 0 for a in arcs),
        'NO_I_EPSILONS': not any(a[1] == 0 for a in arcs),
        'NO_O_EPSILONS': not any(a[2] == 0 for a in arcs),
        'UNWEIGHTED': all(a[3] == 0 for a in arcs) and not any(
            m.finals.values()),
        'WEIGHTED': any(a[3] != 0 for a in arcs) or any(m.finals.values()),
        'CYCLIC': cyclic, 'ACYCLIC': not cyclic,
        'TOP_SORTED': all(a[0] < a[4] for a in arcs)}
    f = m.fst()
    names = rng.sample(sorted(have), rng.choice([1, 1, 2, 3]))
    if rng.random() < .5:
      names = [x for x in names if have[x]] or names
    expected = getattr(pynini, names[0])
    for x in names[1:]:
      expected |= getattr(pynini, x)
    want = all(have[x] for x in names)
    ctx.case(('properties', m.line(), tuple(names)), bool(arcs))
    ctx.saw('properties')
    decide(ctx, 'properties', 'the assertion of properties passes exactly if '
           'the machine has them all', want,
           outcome(case.AssertFstCompliesWithProperties, f, expected),
           machine=m.line(), names=names)


TEXTS = ['a', 'b', 'ab', 'é', 'aé', 'k', 'bab', 'abba', 'x', 'yz', 'क', 'z']


def short(rng, kind, exclude=()):
  """A text of at most 5 labels."""
  while True:
    t = rng.choice(TEXTS)
    if rng.random() < .4:
      t += rng.choice(TEXTS)
    if len(t.encode('utf8') if kind == 'byte' else t) <= 5 and (
        t not in exclude):
      return t


def build(pynini, table, kind, rng=None):
  """A transducer from {input: [(output, weight)]}."""
  with pynini.default_token_type(kind):
    parts = [pynini.cross(pynini.accep(i, weight=w), o)
             for i, pairs in table.items() for o, w in pairs]
    if rng:
      rng.shuffle(parts)
    return pynini.union(*parts).optimize()


def strings(ctx, pynini, case):
  rng = ctx.rng
  kind = rng.choice(['byte', 'utf8'])
  texts = rng.sample(TEXTS, 3)
  table = {t: [(o, 0) for o in rng.sample(TEXTS, rng.choice([1, 1, 1, 2]))]
           for t in texts}
  what = 'the assertion of an output passes exactly if it is the only one'
  with pynini.default_token_type(kind):
    f = build(pynini, table, kind, rng)
    for _ in range(3):
      t = rng.choice(texts + TEXTS[:2])
      have = table.get(t, [])
      o = rng.choice(have)[0] if have and rng.random() < .7 else rng.choice(
          TEXTS)
      want = [x for x, _ in have] == [o]
      ctx.saw('io right' if want else 'io wrong')
      ctx.case(('io', kind, tuple(sorted(table)), t, o), bool(have))
      decide(ctx, 'io', what, want, outcome(case.AssertFstStrIO, f, t, o),
             table=table, input=t, output=o, token_type=kind)
  # Lists of cases, for both types of tokens.
  tables, tests = [], []
  for _ in range(rng.choice([1, 2])):
    t = {x: [(short(rng, 'byte'), 0)] for x in rng.sample(TEXTS, 3)}
    tables.append(t)
    tests.append([(x, t[x][0][0]) for x in rng.sample(sorted(t), 2)])
  want = rng.random() < .5
  only = rng.choice(['both', 'both', 'byte', 'utf8'])
  if not want:
    k = rng.randrange(len(tests))
    j = rng.randrange(len(tests[k]))
    good = tests[k][j][1]
    if only == 'both':
      tests[k][j] = (tests[k][j][0], short(rng, 'byte', [good]))
  asked = []

  def maker(t):
    def make():
      now = pynini.accep('é').num_states()  # 3 for bytes, 2 for code points.
      kind = 'byte' if now == 3 else 'utf8'
      asked.append(kind)
      new = t
      if not want and only == kind and t is tables[k]:
        x = tests[k][j][0]
        new = dict(t, **{x: [(short(rng, 'byte', [t[x][0][0]]), 0)]})
      return build(pynini, new, kind)
    return make
  lists = [(maker(t), x) for t, x in zip(tables, tests)]
  e = outcome(case.AssertFstStrIoTestCases, lists)
  ctx.saw('tables right' if want else 'tables wrong')
  ctx.case(('tables', repr(tests), want, only))
  decide(ctx, 'tables', 'a list of cases passes exactly if all are right for '
         'both types of tokens', want, e, tables=tables, tests=tests, only=only)
  if want:
    ctx.expect(set(asked) == {'byte', 'utf8'}, 'tables-types',
               'each case is tried with both types of tokens', asked=asked)
  # Equality of strings and machines.
  a = short(rng, 'byte')
  b = a if rng.random() < .5 else short(rng, 'byte', [a])
  with pynini.default_token_type(kind):
    x = pynini.accep(a) if rng.random() < .6 else a
    y = pynini.accep(b) if rng.random() < .6 else b
    ctx.saw('equal')
    ctx.case(('equal', a, b, kind))
    decide(ctx, 'equal', 'strings and machines are equal exactly if they are '
           'the same text', a == b, outcome(case.AssertEqualFstLike, x, y),
           a=a, b=b)
  want = a == b
  lists = [((lambda *xs: pynini.accep(''.join(xs))),
            [(list(a), a)] * rng.choice([0, 1]) + [([a[:1], a[1:]], b)])]
  ctx.saw('equal')
  decide(ctx, 'equal-list', 'a list of cases passes exactly if all are right',
         want, outcome(case.AssertEqualFstLikeTestCases, lists), a=a, b=b)


def longest(f):
  """The number of arcs of the longest path of an acyclic machine."""
  def go(s):
    return max([1 + go(a.nextstate) for a in f.arcs(s)], default=0)
  return go(f.start())


class Drawn:
  """Watches the samples which are drawn."""

  def __init__(self, pynini):
    self.pynini, self.counts = pynini, []

  def __enter__(self):
    self.randgen = self.pynini.randgen

    def watched(*args, **kwargs):
      r = self.randgen(*args, **kwargs)
      n, it = 0, r.paths()
      while not it.done():
        n += 1
        it.next()
      self.counts.append(n)
      return r
    self.pynini.randgen = watched
    return self

  def __exit__(self, *unused):
    self.pynini.randgen = self.randgen


def machine_tests(ctx, pynini, tu, case):
  with Drawn(pynini) as drawn:
    one_machine_test(ctx, pynini, tu, case, drawn)


def one_machine_test(ctx, pynini, tu, case, drawn):
  rng = ctx.rng
  kind = rng.choice(['byte', 'utf8'])
  texts = []
  for _ in range(rng.choice([1, 2, 3, 4])):
    texts.append(short(rng, kind, texts))
  want = rng.random() < .5
  which = rng.choice(['functional', 'single', 'identity', 'string'])
  part = rng.choice([.5, .25, 1.5]) if which == 'single' and (
      rng.random() < .1) else 0
  detail = dict(token_type=kind, kind=which)
  samples = rng.choice([None, 1, 20])
  more = {} if samples is None else {'samples': samples}

  def others(*not_these):
    return short(rng, kind, not_these)
  if which in ('functional', 'string'):
    table = {}
    for t in texts:
      o = others()
      table[t] = [(o, 0)] if want else [(o, 0), (others(o), 0)]
    f = build(pynini, table, kind, rng)
    what = 'a machine is functional exactly if each input has one output'
    if which == 'functional':
      e = outcome(case.AssertFstProbablyFunctional, f, kind, **more)
    else:
      with pynini.default_token_type(kind):
        t = pynini.accep(rng.choice(texts))
      e = outcome(tu.AssertFstFunctional, f, kind, t)
      if rng.random() < .5:
        with pynini.default_token_type(kind):
          e = outcome(tu.AssertIfSinglePath, t, t @ f)
  elif which == 'single':
    table = {}
    for t in texts:
      w = rng.choice([0, 0, 1, 3]) + part
      o = others()
      pairs = [(o, w)]
      if not want:
        pairs.append((others(o), w))
      used = [x for x, _ in pairs]
      for _ in range(rng.choice([0, 1, 2])):
        x = others(*used)
        used.append(x)
        pairs.append((x, w + rng.choice([1, 2, 10])))
      table[t] = pairs
    f = build(pynini, table, kind, rng)
    what = 'a best output is single exactly if no other is as good'
    if part:
      which = 'fraction'
    e = outcome(case.AssertFstSingleShortestPath, f, kind, **more)
  else:
    # Through one to three machines, and back to the (normalized) text.
    norm = {t: [(t, 0)] for t in texts}
    renamed = rng.random() < .4
    if renamed:
      images = []
      for t in texts:
        images.append(others(*images))
      norm = {t: [(o, 0)] for t, o in zip(texts, images)}
    middle = []
    for t in texts:
      middle.append(others(*middle))
    first = {t: [(m, 0)] for t, m in zip(texts, middle)}
    last = {}
    for t, m in zip(texts, middle):
      good = norm[t][0][0]
      w = rng.choice([0, 1])
      if want:
        last[m] = [(good, w)]
        if rng.random() < .5:
          last[m].append((others(good), w + rng.choice([1, 5])))
      else:
        how = rng.choice(['other', 'tie', 'worse'])
        last[m] = [(others(good), w)]
        if how != 'other':
          last[m].append((good, w + (how == 'worse')))
    fsts = [build(pynini, first, kind), build(pynini, last, kind)]
    if rng.random() < .4:
      fsts.insert(1, build(pynini, {m: [(m, 0)] for m in middle}, kind))
    table = dict(first=first, last=last, norm=norm)
    what = 'machines are an identity exactly if the best output is the text'
    e = outcome(case.AssertFstProbablyIdentity, fsts, kind,
                build(pynini, norm, kind) if renamed or rng.random() < .5
                else None, **more)
    if not renamed and rng.random() < .3:
      t = rng.choice(texts)
      with pynini.default_token_type(kind):
        e = outcome(tu.AssertIdentity, pynini.accep(t),
                    pynini.accep(t) @ fsts[0] @ fsts[-1])
  if drawn.counts:
    # If all paths are short, none of the samples need be given up.
    ctx.saw('samples', sum(drawn.counts))
    f = fsts[0] if which == 'identity' else f
    ctx.expect(longest(f) > 4 or
               sum(drawn.counts) == (samples or tu.NUM_TEST_SAMPLES),
               'samples-lost-' + kind, 'as many samples are taken as are asked '
               'for', counts=drawn.counts, samples=samples, table=table,
               **detail)
  if which != 'string' and not any(drawn.counts) and not want:
    return  # None was seen.
  ctx.saw('sampled right' if want else 'sampled wrong')
  ctx.case((which, kind, repr(table), want, samples))
  decide(ctx, which, what, want, e, table=table, **detail)


class Stub:
  """An expression which answers as told, and keeps what it was asked."""

  def __init__(self, answer, text):
    self.answer, self.text, self.asked = answer, text, []

  def __str__(self):
    return self.text

  def accepts(self, *args):
    self.asked.append(('accepts',) + args)
    return self.answer

  def is_equivalent(self, *args):
    self.asked.append(('is_equivalent',) + args)
    return self.answer

  def contains(self, *args):
    self.asked.append(('contains',) + args)
    return self.answer

  def matches(self, *args):
    self.asked.append(('matches',) + args)
    return self.answer

  def distance(self, other):
    self.asked.append(('distance', other))
    return self.answer


def stubs(ctx, case):
  rng = ctx.rng
  for _ in range(ctx.n(300, 3000)):
    answer = rng.random() < .5
    s, o = Stub(answer, 'x'), Stub(True, rng.choice('xy'))
    name = rng.choice(['Accepts', 'Equivalent', 'Contains', 'Matches'])
    negated = rng.random() < .5
    method = {'Equivalent': 'is_equivalent'}.get(name, name.lower())
    args, flags = [s, o], ()
    if name == 'Contains':
      flags = rng.choice([(False, False), (True, False), (False, True),
                          (True, True)])
      args += flags
    e = outcome(getattr(case, 'Assert%s%s' % ('Not' if negated else '', name)),
                *args)
    ctx.saw('stubs')
    ctx.case(('stub', name, negated, answer, flags))
    detail = dict(name=name, negated=negated, answer=answer)
    decide(ctx, 'stub', 'an assertion about expressions passes exactly if the '
           'expression says so', answer != negated, e, **detail)
    ctx.expect(s.asked == [(method, o) + tuple(flags)] and not o.asked,
               'stub-asked', 'the first is asked about the second',
               asked=repr(s.asked), **detail)
    decide(ctx, 'stub-text', 'texts are compared',
           str(s) == str(o), outcome(case.AssertStrEqual, s, o), a=str(s),
           b=str(o))
    d, far = rng.choice([0, .5, 1, 2]), rng.choice([0, .5, 1, 2])
    s.answer = d
    decide(ctx, 'stub-distance', 'distances are compared', d == far,
           outcome(case.AssertFeatureDistance, s, o, far), d=d, far=far)
    a = [rng.choice('ab') for _ in range(rng.randint(0, 3))]
    b = list(a) if rng.random() < .5 else [
        rng.choice('ab') for _ in range(rng.randint(0, 3))]
    decide(ctx, 'stub-items', 'items are compared in order', a == b,
           outcome(case.AssertEqualItems, iter(a), tuple(b)), a=a, b=b)
