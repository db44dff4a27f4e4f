"""A reference model of rewrite rules on aligned strings.

An aligned string is text with graphemes `<a>`, phonemes `{a}`, substrings of
transliterations `` `a` `` and alignment signs, as in `<a>={a}`. A rule is a
list of pairs of old and new strings, with a left and a right context that are
regular expressions. It is obligatory and goes from left to right: the left
context is looked for in what was already rewritten, the right context in what
is still to come.
"""

import re

SYM = r'[A-Za-z_+.*\-&!:]*'
G = '(?:<%s>)' % SYM
P = r'(?:\{%s\})' % SYM
T = '(?:`%s`)' % SYM
SKIP_LEFT = '(?:%s*=)?' % G
SKIP_RIGHT = '(?:=(?:%s|%s)*)?' % (P, T)
SKIP = '(?:%s|%s)' % (SKIP_LEFT, SKIP_RIGHT)
BOS = '\x02'
EOS = '\x03'
BOW = BOS + SKIP_LEFT
EOW = SKIP_RIGHT + EOS


def lit(*strings):
  return '(?:%s)' % '|'.join(re.escape(s) for s in strings)


class Rule:

  def __init__(self, pairs, left='', right=''):
    """The contexts here include what is skipped."""
    self.by_old = {}
    for o, n in pairs:
      self.by_old.setdefault(o, set()).add(n)
    self.left = re.compile('(?:%s)\\Z' % left) if left else None
    self.right = re.compile(right) if right else None
    self.right_text = right
    self.fired = self.missed = 0

  def _matches(self, done, text, i):
    hit = [o for o in self.by_old if text.startswith(o, i)]
    if not hit:
      return []
    if self.left and not self.left.search(BOS + done):
      self.missed += 1
      return []
    r = []
    for o in hit:
      if not self.right or self.right.match(text + EOS, i + len(o)):
        r.append(o)
      else:
        self.missed += 1
    return r

  def __call__(self, text, most=300):
    """All outputs, or None when there are too many ways to get there."""
    states = {(0, '', False)}
    out = set()
    while states:
      new = set()
      for i, done, inserted in states:
        hit = self._matches(done, text, i)
        if '' in hit and not inserted:
          # What is inserted is inserted once.
          self.fired += 1
          new |= {(i, done + n, True) for n in self.by_old['']}
          continue
        hit = [o for o in hit if o]
        if hit:
          self.fired += 1
          for o in hit:
            new |= {(i + len(o), done + n, False) for n in self.by_old[o]}
        elif i == len(text):
          out.add(done)
        else:
          new.add((i + 1, done + text[i], False))
      states = new
      if len(states) + len(out) > most:
        return None
    return out


def skipped(left=None, right=None):
  """Contexts with what may be skipped to get to them."""
  return (left + SKIP if left is not None else '',
          SKIP + right if right is not None else '')


def rule(pairs, left=None, right=None):
  l, r = skipped(left, right)
  return Rule(pairs, l, r)
