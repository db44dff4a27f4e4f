"""A reference model of features: trees of values, distances, profiles.

A tree is ('leaf', name, text) or ('list', name, text, kind, step, [trees]),
with kind among 'equidistant', 'linear' and 'cyclic'.
"""

ERROR = 1_000_000


def leaves(t):
  if t[0] == 'leaf':
    return [t[1]]
  return [x for c in t[5] for x in leaves(c)]


def lists(t):
  if t[0] == 'leaf':
    return []
  return [t] + [x for c in t[5] for x in lists(c)]


def apart(kind, step, i, j, n):
  if i == j:
    return 0
  d = abs(i - j)
  return step * {'equidistant': 1, 'linear': d, 'cyclic': min(d, n - d)}[kind]


class Aspect:
  """What an aspect says about its values, from its tree alone."""

  def __init__(self, inventory, tree):
    self.inventory = inventory
    self.alias, self.text = tree[1], tree[2]
    self.tree = tree
    self.values = leaves(tree)
    self.table = {}
    self.above = {v: [] for v in self.values}
    for t in lists(tree):
      items = [leaves(c) for c in t[5]]
      for v in leaves(t):
        self.above[v].append(t[1])
      for i, x in enumerate(items):
        for j, y in enumerate(items):
          if i != j:
            for a in x:
              for b in y:
                self.table[a, b] = apart(t[3], t[4], i, j, len(items))
    self.max = max(self.table.values(), default=0)

  def distance(self, a, b):
    """Between two values, `any` or `n_a` of this aspect."""
    if a == b or 'any' in (a, b):
      return 0
    if 'n_a' in (a, b):
      return self.max
    return self.table[a, b]


def distance(xs, ys):
  """Between two collections of (aspect, value)."""
  return min([ERROR] + [x[0].distance(x[1], y[1])
                        for x in xs for y in ys if x[0] is y[0]])


def under(x, name, aspect):
  """Whether the value x is the value or under the list of that name."""
  return x[0] is aspect and (
      x[1] == name or name in x[0].above.get(x[1], ()))
