"""Compiles C++ of the repository's working tree, as it is, with sanitizers.

What the sandbox does not have (Abseil's logging, Bazel's runfiles, a header of
Google's own) is replaced by the stand-ins in cpp/shim; everything else is the
installed library or the code under test.
"""

import atexit
import concurrent.futures
import glob
import os
import select
import shutil
import subprocess
import tempfile
import time

import nbuild

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = os.path.join(VERIF, 'cpp')
ASAN = ['-O1', '-g1', '-fsanitize=address,undefined',
        '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
# Without what AddressSanitizer reports anyhow (null), or finds rarely (vptr,
# alignment): OpenFst's templates take twice as long to build with them.
LEAN = ASAN + ['-fno-sanitize=null,vptr,alignment']
# What OpenFst 1.8 has and the installed release has not, or not so.
OPENFST18 = ['-I' + CPP + '/shim17', '-DEXPAND=EXPAND_FILTER']
TSAN = ['-O1', '-g1', '-fsanitize=thread']
# Mutexes that the thread sanitizer sees, and that can take their time.
MUTEX = ['-I' + CPP + '/tsan', '-include', 'absl/synchronization/mutex.h']
ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=98:'
                    'detect_stack_use_after_return=1:strict_string_checks=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=0:second_deadlock_stack=1',
    'LC_ALL': 'C.UTF-8',
}
CHECKED = 97  # A failed CHECK of the code, see cpp/shim.
SANITIZER = 98


def absl():
  names = [os.path.basename(f)[3:-3] for f in glob.glob(
      '/usr/lib/x86_64-linux-gnu/libabsl_*.so')]
  return ['-l' + n for n in sorted(names)]


def _run(cmd):
  p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  if p.returncode:
    raise nbuild.BuildError('%s: %s' % (' '.join(cmd)[-300:], p.stdout.decode(
        'utf8', 'replace')[-3000:]))


def _views(out):
  """Lets the string views of the installed Abseil be those of C++17."""
  with open('/usr/include/absl/strings/string_view.h') as f:
    text = f.read()
  head = 'class string_view {\n public:\n'
  if text.count(head) == 1:
    text = text.replace('#include <string>', '#include <string>\n'
                        '#include <string_view>', 1).replace(
        head, head + '  operator std::string_view() const '
        '{ return {ptr_, length_}; }\n')
    os.makedirs(out + '/absl/strings')
    with open(out + '/absl/strings/string_view.h', 'w') as f:
      f.write(text)


def build(programs, env=None, views=False, protos=()):
  """Builds {name: (sources, flags, libraries)}; returns their directory.

  Sources are relative to the repository, or, if they are there, to cpp/, or
  made from the protocol buffers.
  """
  out = tempfile.mkdtemp(prefix='nisaba-verif-cpp-')
  atexit.register(shutil.rmtree, out, True)
  if views:
    _views(out)
  for p in protos:
    _run(['protoc', '-I' + nbuild.REPO, '--cpp_out=' + out, p])
  def find(s):
    for d in (CPP, nbuild.REPO, out):
      if os.path.exists(os.path.join(d, s)):
        break
    return os.path.join(d, s)
  objs = {}
  for sources, flags, _ in programs.values():
    for s in sources:
      path = find(s)
      objs.setdefault((path, tuple(flags)), os.path.join(
          out, '%d-%s.o' % (len(objs), os.path.basename(s))))
  with concurrent.futures.ThreadPoolExecutor(8) as pool:
    list(pool.map(
        lambda i: _run(['g++', '-std=c++17', '-w']
                       + list(i[0][1])
                       + ['-I' + out, '-I' + CPP + '/shim',
                          '-I' + nbuild.REPO, '-I' + CPP, '-c', i[0][0], '-o', i[1]]),
        objs.items()))
    def link(item):
      name, (sources, flags, libs) = item
      files = []
      for s in sources:
        files.append(objs[find(s), tuple(flags)])
      _run(['g++'] + list(flags) + files + ['-o', os.path.join(out, name),
                                            '-Wl,--as-needed'] + absl()
           + list(libs) + ['-lpthread', '-ldl'])
    list(pool.map(link, programs.items()))
  for o in objs.values():
    os.unlink(o)
  os.environ['NISABA_CPP'] = out
  if env is not None:
    env['NISABA_CPP'] = out
  return out


def program(name):
  return os.path.join(os.environ['NISABA_CPP'], name)


def environment(**more):
  return dict(os.environ, **ENV, **more)


_norandom = None


def prefix():
  """Without address space randomization, which some sanitizers do not like."""
  global _norandom
  if _norandom is None:
    try:
      ok = subprocess.run(['setarch', '-R', 'true'],
                          stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
      ok = False
    _norandom = ['setarch', '-R'] if ok else []
  return _norandom


def run(name, args=(), timeout=120, input=None, cwd=None, **env):
  return subprocess.run(prefix() + [program(name)] + list(args), input=input,
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                        timeout=timeout, cwd=cwd, env=environment(**env))


class Died(Exception):

  def __init__(self, code, text):
    super().__init__('status %s: %s' % (code, text))
    self.code, self.text = code, text

  @property
  def kind(self):
    if self.code == 'hangs':
      return 'hangs'
    if self.code == CHECKED:
      return 'check-failed'
    if self.code == SANITIZER or 'Sanitizer' in self.text or (
        'runtime error' in self.text):
      return 'sanitizer'
    return 'crash'


class Server:
  """A program that answers each line with a line."""

  def __init__(self, name, args=(), timeout=120, **env):
    self.name, self.args, self.timeout, self.env = name, args, timeout, env
    self.p = None

  def start(self):
    self.err = tempfile.TemporaryFile()
    self.p = subprocess.Popen(
        prefix() + [program(self.name)] + list(self.args),
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
        env=environment(**self.env))
    self.buffer = b''

  def ask(self, line):
    if self.p is None:
      self.start()
    if isinstance(line, str):
      line = line.encode('utf8')
    try:
      self.p.stdin.write(line + b'\n')
      self.p.stdin.flush()
    except BrokenPipeError:
      pass
    end = time.time() + self.timeout
    while b'\n' not in self.buffer:
      left = end - time.time()
      if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
        self.p.kill()
        self.close()
        raise Died('hangs', '')
      d = os.read(self.p.stdout.fileno(), 1 << 16)
      if not d:
        code = self.p.wait()
        self.err.seek(0)
        text = self.err.read().decode('utf8', 'replace')
        self.close()
        raise Died(code, text[:3000])
      self.buffer += d
    answer, self.buffer = self.buffer.split(b'\n', 1)
    return answer.decode('utf8', 'surrogateescape')

  def close(self):
    if self.p is not None:
      self.p.stdin.close()
      code = self.p.wait()
      self.p.stdout.close()
      self.err.seek(0)
      text = self.err.read().decode('utf8', 'replace')
      self.err.close()
      self.p = None
      return code, text
    return 0, ''
