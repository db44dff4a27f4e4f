"""P21: the portability library: UTF-8, whitespace, files, threads, time."""

import os
import shutil
import tempfile

import cppbuild

PORT = 'nisaba/port/'
LABELS = []
RULE = ('random and exhaustively enumerated byte sequences; random operations '
        'on files, with random names, contents and faults; and histories of '
        'thread pools with random numbers of workers and producers, random '
        'delays, tasks that wait for each other and tasks scheduled by tasks; '
        'a case is one string, file history or pool history, non-trivial when '
        'it has more than one character, operation or thread')
ASSUMPTIONS = ['under the thread sanitizer, Abseil\'s mutexes are replaced by '
               'those of the standard library (cpp/tsan), as the installed '
               'Abseil is not built for it; under the address sanitizer they '
               'are Abseil\'s own',
               'empty files, for which reading is an error, are left out; so '
               'are delimiters in ill-formed text',
               'Abseil logging is a stand-in']
REQUIRED = {'code points': 1112064, 'sequences': 400000, 'ill-formed': 90000,
            'strings': 1500, 'splits': 1000, 'finds': 1500, 'sets': 3,
            'paths': 500, 'contents': 300, 'line files': 300, 'long lines': 40,
            'returns': 40, 'faults': 20, 'file histories': 150, 'file ops': 1500,
            'views': 60, 'protos': 100, 'streams': 100, 'timers': 5,
            'pools': 100, 'tasks': 3000, 'nested': 60, 'early': 100,
            'barriers': 20, 'overlaps': 150, 'interleavings': 60}
WHITE = [9, 10, 11, 12, 13, 0x20, 0x85, 0xA0, 0x1680] + list(
    range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
GLUE = [0x180E, 0x200B, 0x200C, 0x200D, 0x2060, 0xFEFF]
POINTS = ([0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF,
           0x10000, 0x10FFFF, 0x1F600, 0x2007, 0x202F, 0x1680, 0x200B]
          + list(range(0x61, 0x67)) + list(range(0x905, 0x910)) + WHITE + GLUE)


def shards(tier):
  return ['utf8-%d' % i for i in range(3)] + ['files-%d' % i for i in range(2)
                                             ] + ['pool-%d' % i
                                                  for i in range(3)]


def prepare(built, tier):
  common = [PORT + x + '.cc' for x in (
      'file', 'file_util', 'proto_file_stream', 'utf8_util',
      'unicode_properties', 'utf8_delimiters')]
  cppbuild.build({
      'port': (['port_driver.cc'] + common, cppbuild.ASAN,
               ['-lprotobuf', '-lfst']),
      'pool_asan': (['pool_driver.cc'], cppbuild.ASAN, []),
      'pool_tsan': (['pool_driver.cc'], cppbuild.TSAN
                    + cppbuild.MUTEX + ['-DPOOL_RELAXED'], [])})


def hx(b):
  return 'x' + (b.encode('utf8', 'surrogateescape') if isinstance(b, str)
                else b).hex()


def unhx(h):
  return bytes.fromhex(h[1:])


def work(ctx, shard):
  kind, i = shard.split('-')
  ctx.tmp = os.path.realpath(tempfile.mkdtemp(prefix='nisaba-verif-p21-'))
  try:
    {'utf8': utf8, 'files': files, 'pool': pools}[kind](ctx, int(i))
  finally:
    shutil.rmtree(ctx.tmp, True)


class Asker:
  """The driver; what it dies of is a violation."""

  def __init__(self, ctx, **env):
    self.ctx = ctx
    self.server = cppbuild.Server('port', timeout=400, **env)

  def __call__(self, *args, fatal=False):
    line = ' '.join(map(str, args))
    try:
      return self.server.ask(line)
    except cppbuild.Died as e:
      if fatal and e.kind == 'check-failed':
        return 'fatal'
      self.ctx.violate('%s-%s' % (args[0], e.kind),
                       'the library neither fails nor misbehaves here',
                       request=line[:2000], error=e.text)
      return None


def utf8(ctx, shard):
  ask, rng = Asker(ctx), ctx.rng
  # Exhaustive parts, split over the shards.
  a = ask('points', shard, 0x110000, 3)
  if a is not None:
    n, good, bad, first = a.split()
    ctx.saw('code points', int(good))
    ctx.case(('points', shard))
    ctx.expect(bad == '0', 'utf8-points',
               'every code point is encoded and decoded', count=bad,
               first=first)
  for head, more, step in [(b'', 1, 1), (b'', 2, 1), (b'', 3, ctx.n(251, 3))] + [
      (bytes([h]), 3, ctx.n(499, 3)) for h in (0xE0, 0xED, 0xF0, 0xF4, 0xF5)
  ] + [(bytes([h]), 2, 1) for h in ((0xE0, 0xE2), (0xED, 0xEF), (0xF1, 0xC2)
                                   )[shard]]:
    a = ask('bytes', hx(head), more, step, (step and rng.randrange(step)) if
            step > 3 else shard if step == 3 else 0)
    if a is not None:
      n, good, bad, first = a.split()
      ctx.saw('sequences', int(n))
      ctx.saw('ill-formed', int(n) - int(good))
      ctx.case(('bytes', shard, head, more))
      ctx.expect(bad == '0', 'utf8-bytes',
                 'ill-formed sequences are recognized as such, and others are '
                 'decoded', count=bad, first=first)
  sets = ask('spaces')
  if sets is not None:
    for got, want in zip(sets.split('s ')[1:], (WHITE, GLUE, WHITE + GLUE)):
      ctx.saw('sets')
      ctx.expect(sorted(map(int, got.split())) == sorted(want), 'space-sets',
                 'the whitespace characters are those of Unicode', got=got)
  for _ in range(ctx.n(700, 12000)):
    s = ''.join(chr(rng.choice(POINTS)) for _ in range(rng.randint(0, 12)))
    b = s.encode('utf8')
    bad = rng.random() < .4 and b
    if bad:
      k = rng.randrange(len(b))
      b = rng.choice([b[:k] + b[k + 1:], b[:k] + bytes([rng.randrange(256)])
                      + b[k + 1:], b[:k], b + bytes([rng.randrange(256)])])
    try:
      s = b.decode('utf8')
      bad = False
    except UnicodeDecodeError:
      s, bad = '', True
    ctx.case(b, len(b) > 1)
    ctx.saw('strings')
    a = ask('decode', hx(b))
    if a is None:
      continue
    first = (1, 0xFFFD) if bad else (1, 0) if not s else (
        len(s[0].encode('utf8')), ord(s[0]))
    single = (1, ord(s)) if len(s) == 1 else (0, 0xFFFD)
    want = '%d %d %d %d 0 s' % (first + single) + ''.join(
        ' ' + hx(c) for c in s) + ' u' + ''.join(' %d' % ord(c) for c in s)
    ctx.expect(a == want, 'utf8-strings',
               'strings are split into their characters, ill-formed ones are '
               'refused', input=b, got=a, want=want)
    if bad:
      continue
    ctx.saw('splits')
    a = ask('split', hx(b))
    parts, cur = [], ''
    for c in s:
      if ord(c) in WHITE:
        parts.append(cur)
        cur = ''
      else:
        cur += c
    parts.append(cur)
    want = 'w' + ''.join(' ' + hx(p) for p in parts) + ' k' + ''.join(
        ' ' + hx(p) for p in parts if p)
    if a is not None:
      ctx.expect(a == want, 'split-words',
                 'text is split at breaking whitespace and nowhere else',
                 input=s, got=a, want=want)
    for k in rng.sample(range(len(s) + 1), min(3, len(s) + 1)):
      ctx.saw('finds')
      pos = len(s[:k].encode('utf8'))
      hit = next((j for j in range(k, len(s)) if ord(s[j]) in WHITE), None)
      want = '%d 0' % len(b) if hit is None else '%d %d' % (
          len(s[:hit].encode('utf8')), len(s[hit].encode('utf8')))
      a = ask('find', hx(b), pos)
      if a is not None:
        ctx.expect(a == want, 'find-space',
                   'the first delimiter from a position on is found', input=s,
                   pos=pos, got=a, want=want)
  if shard == 0:
    for _ in range(ctx.n(6, 30)):
      us = rng.randint(1000, 30000)
      ctx.saw('timers')
      for _ in range(3):  # The clock might be adjusted.
        a = ask('timer', us)
        if a is None:
          break
        low, got, high, up = map(float, a.split())
        if up and low - 2 <= got <= high + 2:
          break
      else:
        ctx.violate('timer', 'the timer measures elapsed milliseconds', got=a)
  ask.server.close()


NAMES = ['a', 'b', 'ab', 'a b', 'é', 'x.txt', 'restless', 'arest', '-', 'ख']


def data(rng, nul=False):
  parts = [b'abc', b'\n', b'\r\n', b'\r', b' ', 'अé'.encode(), b'"', b'\t',
           b'x' * rng.choice([1, 70, 5000]), b'\n\n', b'#:{}', b'\xff\xfe']
  if nul:
    parts.append(b'\0')
  return b''.join(rng.choice(parts) for _ in range(rng.randint(1, 9)))


def files(ctx, shard):
  rng = ctx.rng
  ask = Asker(ctx, TMPDIR=ctx.tmp)
  # Paths.
  parts = ['', '/', 'a', 'a/', '/a', 'a/b', '//', 'é/', '.', '../x', '/a/b/']
  for _ in range(ctx.n(150, 600)):
    a, b = (''.join(rng.choice(parts) for _ in range(rng.choice([0, 1, 1, 2])))
            for _ in range(2))
    ctx.case(('join', a, b))
    ctx.saw('paths')
    got = ask('join', hx(a), hx(b))
    want = b if b.startswith('/') or not a else a + b if a.endswith('/') else (
        a + '/' + b)
    if got is not None:
      ctx.expect(got == hx(want), 'join-path', 'paths are joined by one '
                 'separator, unless the second is absolute', args=[a, b],
                 got=unhx(got))
    # The result of joining with a name is below the directory.
    ctx.saw('paths')
    got = ask('temp', hx(rng.choice(NAMES)))
    if got is not None:
      ctx.expect(os.path.dirname(unhx(got).decode()) == ctx.tmp, 'temp-path',
                 'temporary files are in the directory for these',
                 got=unhx(got))
  # Whole files.
  for _ in range(ctx.n(200, 2500)):
    path = os.path.join(ctx.tmp, rng.choice(NAMES))
    body = data(rng, nul=True)
    ctx.case(('whole', body), len(body) > 1)
    ctx.saw('contents')
    if rng.random() < .3:
      a = ask('writetemp', hx(os.path.basename(path)), hx(body))
      ok = a == 'ok ' + hx(path)
    else:
      a = ask('write', hx(path), hx(body))
      ok = a == 'ok'
    if a is None:
      continue
    ctx.expect(ok and open(path, 'rb').read() == body, 'write-file',
               'a file that was written has the contents', path=path,
               contents=body, got=a)
    for op in ('readtext', 'readbinary'):
      got = ask(op, hx(path))
      if got is not None:
        ctx.expect(got == 'ok ' + hx(body), 'read-file',
                   'reading gives the contents', op=op, contents=body,
                   got=got[:300])
  for _ in range(ctx.n(200, 2500)):
    path = os.path.join(ctx.tmp, 'lines')
    body = data(rng)
    with open(path, 'wb') as f:
      f.write(body)
    limit = rng.choice([-1, -1, 5, 80, 51200, 1 + rng.randrange(20)])
    most = 32768 if limit < 0 else limit
    if rng.random() < .1:
      body += b'y' * (most + rng.randint(-3, 3)) + b'\nz'
      with open(path, 'wb') as f:
        f.write(body)
    lines = body.split(b'\n')
    if lines[-1] == b'':
      lines.pop()
    if any(l.endswith(b'\r') for l in lines):
      ctx.saw('returns')
    want = []
    for l in lines:
      l = l[:-1] if l.endswith(b'\r') else l
      # More than one return is not a line ending that anybody uses.
      if l:
        if len(l) >= most:
          ctx.saw('long lines')
          l = l[:most - 1]
        want.append(l)
    ctx.case(('lines', body, limit), len(lines) > 1)
    ctx.saw('line files')
    got = ask('lines', hx(path), limit)
    if got is not None and not any(l.endswith(b'\r\r') for l in lines):
      ctx.expect(got == 'ok' + ''.join(' ' + hx(l) for l in want), 'read-lines',
                 'the lines are those of the file without their endings, '
                 'without the empty ones, and not longer than allowed',
                 body=body[:300], limit=limit, got=got[:500])
  # Faults.
  for path, reads in ((ctx.tmp + '/no/x', True), ('/dev/full', False),
                      (ctx.tmp, False)):
    for k in (1, 3000, 100000):
      for op in ('write', 'writetemp'):
        name = path
        if op == 'writetemp':
          name = os.path.relpath(path, ctx.tmp)
        a = ask(op, hx(name), hx(b'q' * k))
        ctx.saw('faults')
        if a is not None:
          ctx.expect(a == 'error', 'write-fault', 'a failed write is an error',
                     op=op, path=path, size=k, got=a)
    if reads:
      for op in (('readtext',), ('readbinary',), ('lines', -1)):
        a = ask(op[0], hx(path), *op[1:])
        ctx.saw('faults')
        if a is not None:
          ctx.expect(a == 'error', 'read-fault', 'a failed read is an error',
                     op=op, path=path, got=a)
  for _ in range(ctx.n(110, 1500)):
    history(ctx, ask)
  protos(ctx, ask)
  ask.server.close()


def history(ctx, ask):
  """A history of one directory, by its model: {name: contents}."""
  rng = ctx.rng
  ctx.saw('file histories')
  top = tempfile.mkdtemp(dir=ctx.tmp)
  model = {}
  ops = []

  def do(*op, **kw):
    ops.append(' '.join(map(str, op))[:80])
    ctx.saw('file ops')
    return ask(*op, **kw)

  def want(got, value, mech, what):
    if got is None:
      raise ValueError
    if not ctx.expect(got == value, mech, what, history=ops[-12:],
                      got=got[:200], want=str(value)[:200]):
      raise ValueError

  try:
    for _ in range(rng.randint(2, 8)):
      name = os.path.join(top, rng.choice(NAMES))
      if rng.random() < .3:
        how = rng.choice(['view', 'char'])
        if how == 'view':
          ctx.saw('views')
          # Something else, whose name goes on.
          if rng.random() < .5:
            with open(name + 'rest', 'wb') as f:
              f.write(b'other')
            model[name + 'rest'] = b'other'
        want(do('delete', hx(name), how), 'ok' if name in model else 'error',
             'file-delete', 'a file is deleted if it is there')
        model.pop(name, None)
      elif rng.random() < .5 or name not in model:
        mode = rng.choice(['w', 'w', 'a', 'w+', 'a+'])
        how = rng.choice(['char', 'view', 'die', 'die2'])
        if how == 'die':
          # The view of the mode goes on with a plus.
          mode = mode[0]
        if how in ('view', 'die'):
          ctx.saw('views')
        want(do('open', hx(name), hx(mode), how), 'ok', 'file-open',
             'a file is opened')
        body = model.get(name, b'') if mode[0] == 'a' else b''
        for _ in range(rng.randint(1, 5)):
          d = data(rng)
          kind = rng.choice(['raw', 'string', 'die', 'status', 'line'])
          body += d + (b'\n' if kind == 'line' else b'')
          want(do('fwrite', hx(d), kind), str(len(d) + (kind == 'line')),
               'file-write', 'what is written is written')
          if rng.random() < .3:
            want(do('flush'), 'ok', 'file-flush', 'flushing works')
            want(do('size'), str(len(body)), 'file-size',
                 'the size is that of the file')
            with open(name, 'rb') as f:
              want(f.read(), body, 'file-write', 'what is written is written')
          want(do('name'), hx(name), 'file-name', 'the name is that of the file')
        model[name] = body
        if rng.random() < .2:
          want(do('close', 'wrong'), 'error', 'file-close',
               'unknown flags are refused')
        want(do('close', rng.choice(['flags', 'plain'])), 'ok', 'file-close',
             'a file is closed')
      else:
        how = rng.choice(['char', 'view', 'die', 'die2'])
        if how in ('view', 'die'):
          ctx.saw('views')
        want(do('open', hx(name), hx('r'), how), 'ok', 'file-open',
             'a file is opened')
        rest = model[name]
        for _ in range(rng.randint(1, 5)):
          kind = rng.choice(['raw', 'line', 'all', 'all', 'die'])
          n = rng.choice([1, 2, 7, 80, 6000, 100000])
          if kind == 'all' and rng.random() < .4:
            n = rng.choice([2**31 - 1, 2**31 + 5, 2**32, 2**63 - 1, 2**63,
                            2**64 - 1, 0])
          if kind == 'die':
            n = min(n, len(rest))
          if kind == 'line':
            if b'\0' in rest or n < 2:
              continue
            k = rest.find(b'\n') + 1 or len(rest)
            k = min(k, n - 1)
            w = 'end' if not rest else hx(rest[:k])
          else:
            k = min(n, len(rest))
            w = hx(rest[:k])
          want(do('fread', n, kind), w, 'file-read',
               'reading gives the next part of the contents')
          rest = rest[k:]
        want(do('size'), str(len(model[name])), 'file-size',
             'the size is that of the file')
        want(do('close', rng.choice(['flags', 'plain'])), 'ok', 'file-close',
             'a file is closed')
      probe = os.path.join(top, rng.choice(NAMES))
      want(do('exists', hx(probe)), 'yes' if probe in model else 'no',
           'file-exists', 'a file exists as long as it is not deleted')
    missing = os.path.join(top, 'missing')
    want(do('open', hx(missing), hx('r'), rng.choice(['char', 'view'])), 'error',
         'file-open', 'a missing file is not opened')
    if rng.random() < .1:
      want(do('open', hx(missing), hx('r'), 'die', fatal=True), 'fatal',
           'file-open', 'a missing file is fatal if it must be there')
    real = {os.path.join(top, x): open(os.path.join(top, x), 'rb').read()
            for x in os.listdir(top)}
    ctx.expect(real == model, 'file-contents',
               'the files are those that were written', history=ops,
               got={k: v[:100] for k, v in real.items()},
               want={k: v[:100] for k, v in model.items()})
    if rng.random() < .1:
      # What cannot be written cannot be closed with success.
      want(do('open', hx('/dev/full'), hx('w'), 'char'), 'ok', 'file-open',
           'a file is opened')
      do('fwrite', hx(b'abc'), 'raw')
      ctx.saw('faults')
      want(do('flush'), 'error', 'file-flush', 'a failed write is an error')
      do('close', 'plain')
  except ValueError:
    # Start again with no open file.
    ask.server.close()
  ctx.case(tuple(ops), len(ops) > 3)
  shutil.rmtree(top, True)


def protos(ctx, ask):
  from google.protobuf import descriptor_pb2
  from google.protobuf import text_format
  rng = ctx.rng
  path = os.path.join(ctx.tmp, 'proto')
  word = lambda: ''.join(rng.choice('abé"\\\n\'{}: #अ')
                         for _ in range(rng.randint(1, 6)))
  for _ in range(ctx.n(70, 700)):
    p = descriptor_pb2.FileDescriptorProto()
    p.package = word()
    for _ in range(rng.randint(0, 3)):
      m = p.message_type.add()
      m.name = word()
      for k in range(rng.randint(0, 3)):
        f = m.field.add()
        f.name, f.number = word(), rng.randint(1, 1 << 28)
        f.label = rng.choice([1, 2, 3])
        if rng.random() < .5:
          f.default_value = word()
    if rng.random() < .5:
      p.options.deprecated = rng.random() < .5
      p.dependency.append(word())
    kind = rng.choice(['text', 'line', 'utf8', 'binary', 'broken', 'missing'])
    if kind == 'binary':
      body = p.SerializeToString()
    elif kind == 'broken':
      body = b'\xff\xff what: {' + os.fsencode('x' * rng.randint(0, 5))
    else:
      body = ('# A comment.\n' * rng.randint(0, 1) + text_format.MessageToString(
          p, as_utf8=kind == 'utf8', as_one_line=kind == 'line')).encode()
    if os.path.exists(path):
      os.unlink(path)
    if kind != 'missing':
      with open(path, 'wb') as f:
        f.write(body)
    ctx.case(('proto', body))
    ctx.saw('protos')
    a = ask('proto', hx(path), rng.choice(['read', 'get']))
    if a is None:
      continue
    if kind in ('broken', 'missing'):
      ctx.expect(a == 'error', 'proto-broken', 'what is no message is an error',
                 kind=kind, body=body[:200], got=a[:100])
    else:
      q = descriptor_pb2.FileDescriptorProto()
      ok = a.startswith('ok ')
      if ok:
        q.ParseFromString(unhx(a[3:]))
      ctx.expect(ok and q == p, 'proto-read',
                 'the message is that of the file, in text or binary format',
                 kind=kind, body=body[:300], got=a[:100])
  for _ in range(ctx.n(70, 700)):
    chunks = [bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 9, 200]))
                   ) * rng.choice([1, 1, 50])
              for _ in range(rng.randint(0, 6))]
    block = rng.choice([-1, 1, 2, 7, 64, 1000])
    end = rng.choice(['close', 'flush', 'none', 'delete'])
    ctx.case(('stream', chunks, block, end), len(chunks) > 1)
    ctx.saw('streams')
    full = rng.random() < .1
    a = ask('stream', hx('/dev/full' if full else path), block, end,
            *map(hx, chunks))
    if a is None:
      continue
    if full:
      if any(chunks) and end in ('close', 'flush', 'none'):
        ctx.saw('faults')
        ctx.expect(a == 'error', 'stream-fault', 'a failed write is an error',
                   chunks=chunks, end=end, got=a)
      continue
    with open(path, 'rb') as f:
      got = f.read()
    ctx.expect(a == 'ok' and got == b''.join(chunks), 'stream',
               'the file has all bytes that were put into the stream, in order',
               sizes=list(map(len, chunks)), block=block, end=end, answer=a,
               got=got[:200])


def pools(ctx, shard):
  rng = ctx.rng
  seen = set()
  for k in range(ctx.n(90, 900)):
    threads = rng.choice([1, 1, 2, 3, 4, 8])
    producers = rng.choice([1, 1, 2, 4])
    tasks = rng.choice([0, 1, 2, 10, 40, 40])
    nested = rng.choice([0, 0, min(tasks, 5)])
    early = rng.choice([0, 0, 3, 100])
    delay = rng.choice([0, 50, 300, 1500])
    barrier = rng.random() < .3 and tasks - nested >= threads
    program = rng.choice(['pool_tsan', 'pool_asan'])
    args = [rng.randrange(10**6), threads, producers, tasks, early, nested,
            delay, int(barrier)]
    detail = dict(program=program, args=args)
    try:
      p = cppbuild.run(program, map(str, args), timeout=60)
    except Exception as e:  # pylint: disable=broad-except
      if type(e).__name__ != 'TimeoutExpired':
        raise
      ctx.violate('pool-hangs', 'all tasks run and the destructor returns',
                  **detail)
      continue
    ctx.saw('pools')
    if not ctx.expect(p.returncode == 0, 'pool-sanitizer'
                      if p.returncode == cppbuild.SANITIZER else 'pool-crash',
                      'there are no data races or other undefined behaviour',
                      code=p.returncode, error=p.stderr[-2500:].decode(
                          'utf8', 'replace'), **detail):
      continue
    log(ctx, p.stdout.decode(), args, detail, seen)
  ctx.saw('interleavings', len(seen))


def log(ctx, text, args, detail, seen):
  """Checks the log of one history."""
  _, threads, producers, tasks, early, nested, _, barrier = args
  ev, slots, live = {}, {}, None
  for line in text.splitlines():
    f = line.split()
    if f[0] == 'slot':
      slots[int(f[1]), int(f[2])] = (int(f[3]), int(f[4]))
    elif f[0] == 'live':
      live = int(f[1])
    else:
      ev[f[1], int(f[2]), int(f[3])] = int(f[0])
  order = tuple(k for k, _ in sorted(ev.items(), key=lambda x: x[1])
                if k[0] == 'b')
  seen.add(order)
  ctx.case((args[1:], order), threads > 1 or producers > 1)
  every = [(p, k) for p in range(producers) for k in range(
      tasks + (nested if p == 0 else 0))]
  ctx.saw('tasks', len(every))
  ctx.saw('nested', nested)
  ctx.saw('early', min(early, tasks))
  ctx.saw('barriers', barrier)
  if not ctx.expect(
      set(slots) == set(every) and all(s == (1, 1) for s in slots.values()),
      'pool-once', 'every task runs exactly once before the destructor returns, '
      'and its effects can be seen then', got={
          str(k): v for k, v in slots.items() if v != (1, 1)}, **detail):
    return
  ctx.expect(live == 0, 'pool-live', 'tasks do not outlive the pool', live=live,
             **detail)
  begin = {t: ev[('b',) + t] for t in every}
  end = {t: ev[('e',) + t] for t in every}
  done = ev['D', 0, 0]
  ctx.expect(all(ev[('s',) + t] < begin[t] < end[t] < done for t in every),
             'pool-order', 'a task runs after it is scheduled and before the '
             'destructor returns', **detail)
  # No more than `threads` at once.
  points = sorted([(begin[t], 1) for t in every] + [(end[t], -1)
                                                    for t in every])
  n = most = 0
  for _, d in points:
    n += d
    most = max(most, n)
  if most > 1:
    ctx.saw('overlaps', most)
  ctx.expect(most <= threads, 'pool-width',
             'no more tasks run at once than there are threads', most=most,
             **detail)
  # First in, first out: when a task begins, fewer than `threads` tasks that
  # had been scheduled before it was may still wait to begin.
  for t in every:
    s = ev[('s',) + t]
    late = [u for u in every if ev[('t',) + u] < s and begin[u] > begin[t]]
    if not ctx.expect(len(late) < threads, 'pool-fifo',
                      'tasks begin in the order in which they were scheduled',
                      task=t, overtaken=late[:10], **detail):
      break
