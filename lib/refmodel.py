"""Reference semantics of rewriting, in plain Python over Python strings.

Written from the documentation, it shares no code with the grammars: no FSTs.
"""

import os


def rows(path):
  """Rows of a table file: two columns, comments and empty lines left out."""
  r = []
  if not os.path.exists(path):
    return r
  with open(path, encoding='utf8', newline='\n') as f:
    for line in f.read().split('\n'):
      if line and not line.startswith('#'):
        c = line.split('\t')
        r.append((c[0], c[1] if len(c) > 1 else c[0]))
  return r


def rules(path):
  """Rewrite rules of a file: no second column means deletion."""
  r = []
  if not os.path.exists(path):
    return r
  with open(path, encoding='utf8', newline='\n') as f:
    for line in f.read().split('\n'):
      if line and not line.startswith('#'):
        c = line.split('\t')
        r.append((c[0], c[1] if len(c) > 1 else ''))
  return r


def first_col(path):
  return [a for a, _ in rows(path)]


class Ambiguous(Exception):
  """The rules do not determine one result for this text."""


def layers(rules):
  """Longer contexts bleed shorter ones: rule sets in order of application."""
  rules = list(dict.fromkeys(rules))
  depth = {}

  def d(r):
    if r not in depth:
      depth[r] = 0
      depth[r] = max([d(q) + 1 for q in rules
                      if q != r and r[0] in q[0]], default=0)
    return depth[r]

  out = []
  for r in rules:
    k = d(r)
    while len(out) <= k:
      out.append([])
    out[k].append(r)
  return out


def scan(rules, text, left=None, right=None, stops=None):
  """Rewrites from left to right, leftmost match first, always when possible.

  left(done, rest): whether the context allows a match after output `done`.
  right(rest): whether the text after the match allows it.
  """
  table = {}
  for a, b in rules:
    if a == b and a == '':
      continue
    table.setdefault(a, set()).add(b)
  lens = sorted({len(a) for a in table}, reverse=True)
  out, i = [], 0
  while i < len(text):
    got = []
    for n in lens:
      lhs = text[i:i + n]
      if len(lhs) == n and lhs in table:
        if right is not None and not right(text[i + n:]):
          continue
        if left is not None and not left(''.join(out)):
          continue
        got += [(n, b) for b in table[lhs]]
    if len(got) > 1:
      raise Ambiguous(ascii((text, got)))
    if got:
      n, b = got[0]
      out.append(b)
      i += n
    else:
      out.append(text[i])
      i += 1
  return ''.join(out)


def unordered(rules, text):
  for rs in layers(rules):
    text = scan(rs, text)
  return text


def unordered_pre(ls, text):
  for rs in ls:
    text = scan(rs, text)
  return text


def cascade(rules, text):
  for a, b in rules:
    text = text.replace(a, b)
  return text
