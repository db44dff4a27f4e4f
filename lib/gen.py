"""Hostile Brahmic texts, shared by the checks of normalizers."""

import brahmic as B


class Texts:

  def __init__(self, script, tables=('visual_rewrite',)):
    self.sc = B.Script(script, B.pinned()[script])
    self.lhs = [a for t in tables for a, _ in B.rules(script, t)]
    self.rhs = [b for t in tables for _, b in B.rules(script, t) if b]
    self.chars = list(B.sigma()[script])
    self.marks = sorted(c for c in self.chars
                        if B.unicodedata.category(c)[0] == 'M') or self.chars
    self.cons = self.sc.cat['consonant']

  def piece(self, rng):
    r = rng.random()
    if r < .45:
      return self.sc.akshara(rng, True)
    if r < .62 and self.lhs:
      return rng.choice(self.lhs)
    if r < .66 and self.rhs:
      return rng.choice(self.rhs)
    if r < .74:
      return rng.choice(self.chars)
    if r < .82:
      return rng.choice(B.ZW)
    if r < .9:
      return rng.choice(self.marks) * rng.choice([1, 2, 2, 3])
    w = rng.choice(self.cons)
    for _ in range(rng.randint(1, 3)):
      w += rng.choice(self.sc.preserve or ['']) + rng.choice(self.cons)
    return w

  def any(self, rng, n=4):
    return ''.join(self.piece(rng) for _ in range(rng.randint(1, n)))

  def wellish(self, rng, n=4):
    """Mostly well-formed, with rewritable sequences among syllables."""
    w = ''
    for _ in range(rng.randint(1, n)):
      w += self.sc.akshara(rng, True)
      r = rng.random()
      if r < .3 and self.lhs:
        w += rng.choice(self.lhs)
    return w
