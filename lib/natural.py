"""A reference model of the pronunciation and natural romanization of ISO text.

Written over Python strings, without FSTs: letters are read into graphemes,
graphemes are assigned phonemes (`<k>={k}`), and each language applies a list
of obligatory rules, each from left to right, in which the left context is what
was already rewritten and the right context is what has not been yet.

Every symbol (`<gr>`, `{ph}`, `` `tr` ``, `=`) is one private character, so
that contexts are regular expressions.
"""

import json
import os
import re

_D = json.load(open(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'data', 'natural.json'), encoding='utf8'))
_CH = _D['chars']
_PH = _D['phonemes']

LANGS = 'bn gu hi kn ml mr pa ta te'.split()
SCRIPT = dict(bn='Beng', gu='Gujr', hi='Deva', kn='Knda', ml='Mlym', mr='Deva',
              pa='Guru', ta='Taml', te='Telu')

_SYM = re.compile(r'<[^<>]*>|\{[^{}]*\}|`[^`]*`|=')
_code = {}
_text = {}


def tok(s):
  """Replaces every symbol with its private character."""
  def one(m):
    if m[0] not in _code:
      c = chr(0xe000 + len(_code))
      _code[m[0]] = c
      _text[c] = m[0]
    return _code[m[0]]
  return _SYM.sub(one, s)


def untok(s):
  return ''.join(_text.get(c, c) for c in s)


_all = [c for g in _CH.values() for c in g]
_phs = [p for g in ('SILENCE VOWEL_MOD CONS_MOD VOWEL NASAL VOICELESS_STOP '
                    'VOICED_STOP VOICELESS_FRICATIVE VOICED_FRICATIVE '
                    'VOICELESS_AFFRICATE VOICED_AFFRICATE APPROXIMANT '
                    'TAP_TRILL').split() for p in _PH[g]]
GRS = [tok('<%s>' % c[0]) for c in _all]
for _c in _all:
  tok(_c[2])
for _p in _phs:
  tok(_p[1])
TRS = {tok(k): v for k, v in _D['ltn'].items()}
tok('=')
tok('{+}')
PHS = [c for c in _text if _text[c][0] == '{']
IPA = {tok(k): v for k, v in _D['ipa'].items()
       if k in {p[1] for p in _phs}}

EQ = _code['=']
_G = '[%s]*' % ''.join(GRS)
_R = '[%s]*' % ''.join(PHS + list(TRS))
LEFT_SIDE = '(?:%s%s)?' % (_G, EQ)
RIGHT_SIDE = '(?:%s%s)?' % (EQ, _R)
SKIP = '(?:%s|%s)' % (LEFT_SIDE, RIGHT_SIDE)
BOS, EOS = r'\A', r'\Z'
BOW = BOS + LEFT_SIDE
EOW = RIGHT_SIDE + EOS


def any_of(*xs):
  return '(?:%s)' % '|'.join(tok(x) for x in xs)


def gr(*typs):
  return any_of(*['<%s>' % t for t in typs])


P = {p[0]: tok(p[1]) for p in _phs}
T = {k[1:-1]: tok(k) for k in _D['ltn']}


def tr(*names):
  return ''.join(T[n] for n in names)


def _union(*groups, plus='', minus=''):
  r = [P[p[0]] for g in groups for p in _PH[g] if p[0] not in minus.split()]
  return any_of(*r, *[P[x] for x in plus.split()])

_FRIC = ('VOICELESS_FRICATIVE', 'VOICED_FRICATIVE')
_STOP = ('VOICELESS_STOP', 'VOICED_STOP')
_AFFR = ('VOICELESS_AFFRICATE', 'VOICED_AFFRICATE')
_CONS = ('NASAL',) + _STOP + _FRIC + _AFFR + ('APPROXIMANT', 'TAP_TRILL')
_VMOD = '[%s]*' % ''.join(P[x] for x in ('NSY', 'NSL', 'DURH'))
_CMOD = P['ASP'] + '*'
NASAL = _union('NASAL')
FRICATIVE = _union(*_FRIC)
VOICED = _union('VOICED_STOP', 'VOICED_FRICATIVE', 'VOICED_AFFRICATE')
APPROXIMANT = _union('APPROXIMANT')
RHOTIC = _union('TAP_TRILL', plus='RRU')
LIQUID = _union('TAP_TRILL', plus='RRU L LL')
SIBILANT = any_of(*[P[x] for x in 'S Z SH ZH SS'.split()])
PLACES = [('M', 'M B P'), ('NI', 'NI DI TI'), ('NY', 'N D T'), ('NY', 'NY Y'),
          ('NN', 'NN DD TT'), ('NG', 'NG G K')]
VOWEL = _union('VOWEL') + _VMOD
STOP = _union(*_STOP) + _CMOD
AFFRICATE = _union(*_AFFR) + _CMOD
CONSONANT = _union(*_CONS) + _CMOD
ALL = any_of(*[p[1] for p in _phs])

_VSIGN = [c[0] for g in ('INHERENT_VOWEL SIMPLE_VOWEL_SIGN SHORT_VOCALIC '
                         'DIPHTHONG_SIGN SANTAL_AAN LONG_VOCALIC').split()
          for c in _CH[g]]
_VIND = [c[0] for g in ('INDEPENDENT_NONVOCALIC INDEPENDENT_VOCALIC '
                        'INDEPENDENT_A').split() for c in _CH[g]]
CODA = gr(*[c[0] for c in _CH['SIMPLE_CODA'] + _CH['CND']])
VOCALIC = gr(*[c[0] for g in ('SHORT_VOCALIC', 'LONG_VOCALIC',
                              'INDEPENDENT_VOCALIC') for c in _CH[g]])
SCH_CONS = gr(*[c[0] for c in _CH['SIMPLE_CONSONANT'] +
                _CH['ASPIRATED_CONSONANT']])


class Rule:
  """old -> new / left SKIP _ SKIP right; `old` may be a regular expression."""

  def __init__(self, ops, left=None, right=None):
    self.lit, self.rex, self.insert = [], [], []
    for old, new in ops:
      if old == '':
        self.insert.append(new)
      elif re.search(r'[\[\](){}*?|\\]', old):
        self.rex.append((re.compile(old), new))
      else:
        self.lit.append((old, new))
    self.left = re.compile('(?:%s%s)%s' % (left, SKIP, r'\Z')) if left else None
    self.right = re.compile('%s(?:%s)' % (SKIP, right)) if right else None

  def __call__(self, text):
    if not self.insert and not self.rex:
      lit = [x for x in self.lit if x[0] in text]
      if not lit:
        return {text}
    else:
      lit = self.lit
    out = set()
    n = len(text)
    todo = [(0, '', False)]
    while todo:
      i, done, fresh = todo.pop()
      while True:
        if not fresh and self.insert:
          if self._ok(done, text, i):
            done += self.insert[0]
          fresh = True
        if i == n:
          out.add(done)
          break
        m = []
        for old, new in lit:
          if text.startswith(old, i):
            m.append((i + len(old), new))
        for rex, new in self.rex:
          if rex.match(text, i):
            m += [(j, new) for j in range(i + 1, n + 1)
                  if rex.fullmatch(text, i, j)]
        m = [(j, new) for j, new in m if self._ok(done, text, j)]
        if m:
          todo += [(j, done + new(text[i:j]) if callable(new) else done + new,
                    False) for j, new in m]
          break
        done += text[i]
        i += 1
        fresh = False
    return out

  def _ok(self, done, text, j):
    if self.right and not self.right.match(text, j):
      return False
    return not self.left or bool(self.left.search(done))


def rule(old, new, left=None, right=None):
  return Rule([(old, new)], left, right)


def ph(*names):
  return ''.join(P[n] for n in names)


def re_(left_side, old, new, left=None, right=None):
  """Changes what `left_side` stands for."""
  if left_side[0] == '(':  # Several graphemes: all must be spelled out.
    raise ValueError(left_side)
  return rule(left_side + EQ + old, left_side + EQ + new, left, right)


def g1(*typs):
  return ''.join(_code['<%s>' % t] for t in typs)


def merge(l1, r1, l2, r2, new, left=None, right=None):
  return rule(l1 + EQ + r1 + l2 + EQ + r2, l1 + l2 + EQ + new, left, right)


def adjacent(l1, o1, n1, l2, o2, n2):
  return rule(l1 + EQ + o1 + l2 + EQ + o2, l1 + EQ + n1 + l2 + EQ + n2)


def seq(*xs):
  """Right sides one after the other, across alignments."""
  return LEFT_SIDE.join(xs)


def u(*xs):
  return '(?:%s)' % '|'.join(xs)


# Reading.

_READ = {c[1]: _code['<%s>' % c[0]] for g in (
    'INHERENT_VOWEL SIMPLE_VOWEL_SIGN SIMPLE_CONSONANT SIMPLE_CODA OM_VOWEL '
    'MODIFIER SYMBOL').split() for c in _CH[g]}


def _compose(*groups):
  return Rule([(tok(c[3]), _code['<%s>' % c[0]])
               for g in groups for c in _CH[g]])

_READING = [
    _compose('LONG_VOCALIC'),
    _compose('SHORT_VOCALIC', 'DIPHTHONG_SIGN', 'SANTAL_AAN'),
    rule('', g1('ind'), BOW, gr(*[v for v in _VSIGN if v != 'aan'])),
    _compose('INDEPENDENT_NONVOCALIC', 'INDEPENDENT_VOCALIC', 'INDEPENDENT_A'),
    _compose('ASPIRATED_CONSONANT', 'DEAD_CONSONANT'),
    _compose('OM', 'CND'),
]
_ASSIGN = {_code['<%s>' % c[0]]: _code['<%s>' % c[0]] + EQ + tok(c[2])
           for c in _all}


def letters(iso):
  """The characters which make up ISO text, or None where it is not such."""
  if any(c not in _READ for c in iso):
    return None
  s = {''.join(_READ[c] for c in iso)}
  for r in _READING:
    s = {y for x in s for y in r(x)}
  return s


# Pronunciation.

D = 'DURH'
A_TO_EC = [rule(ph('A'), ph('EC')), rule(ph('EC', D), ph('A', D)),
           rule(ph('EC') + tok('{+}'), ph('A') + tok('{+}'))]
A_AE = [re_(g1('a_i'), ph('A'), ph('AE'))]
AI_EH = [rule(ph('A_I'), ph('EH', D))]
AU_OH = [rule(ph('A_U'), ph('OH', D))]


def vocalic(v):
  # The length mark stays behind the vowel.
  return [rule(ph('SYL'), ph(v)), rule(ph('SYL', D), ph(v, D))]


def schwa(v):
  return [Rule([(ph('V_TNT'), ph(v)), (ph('V_PRN'), ph(v))])]


def say(left=None, right=None):
  return rule(ph('V_TNT'), ph('V_PRN'), left, right)


def hush(left=None, right=None):
  return rule(ph('V_TNT'), ph('SIL'), left, right)


def schwas(onset, coda):
  legal_coda = seq(VOWEL, u(CONSONANT, coda) + '?')
  # The optional coda comes with its own step to the next alignment.
  legal_onset = seq(u(CONSONANT, onset), VOWEL)
  return [
      say(right=CODA), say(right=gr(*_VIND)),
      say(seq(u(ph('I'), ph('I', D)), ph('Y'))),
      hush(legal_coda, EOS), hush(legal_coda, legal_onset)]


def nasal(g, p, place=None):
  return re_(g1(g), ph('NSL'), ph(p), right=place)


def assimilate(g):
  return [nasal(g, p, any_of(*[P[x] for x in place.split()]))
          for p, place in PLACES]

ANS_LABIAL, ANS_DENTAL, ANS_VELAR = [[nasal('ans', x)]
                                     for x in ('M', 'NI', 'NG')]
ANS_FINAL = [rule(g1('ans') + EQ + NASAL, g1('ans') + EQ + ph('NSL'),
                  right=EOW)]


def jny(j, ny):
  return [adjacent(g1('j'), ph('D_ZH'), ph(j), g1('ny'), ph('NY'), ph(ny))]

YY_Y = [rule(ph('ASP'), '', g1('yy'))]
OOYY_V = [merge(g1('oo_i'), ph('O', D), g1('yy'), ph('Y'), ph('VU')),
          re_(g1('a'), ph('OH'), ph('SIL'), right=g1('oo_i', 'yy'))]
PH_F = [re_(g1('ph'), ph('P', 'ASP'), ph('F'))]
BH_V = [re_(g1('bh'), ph('B', 'ASP'), ph('VU'), ALL)]
B_V = [re_(g1('b'), ph('B'), ph('VU'), CONSONANT)]
PHPH_FF = [adjacent(g1('ph'), ph('P', 'ASP'), ph('F'),
                    g1('ph'), ph('P', 'ASP'), ph('F'))]
GEMINATE_ASP = [rule(ph('ASP'), '', right=ALL + ph('ASP'))]
RT_R = [rule(ph('RT'), ph('R'))]
RR_TT = [merge(g1('rr'), ph('R'), g1('rr'), ph('R'), ph('T', 'T'))]
NR_NDR = [merge(g1('na'), ph('N'), g1('rr'), ph('R'), ph('N', 'D', 'R'))]
FINAL_U = [rule('', g1('u') + EQ + ph('U'), SCH_CONS + EQ + ALL + '*', EOW)]
H_ASP = [re_(g1('h'), ph('H'), ph('ASP'),
             any_of(*[P[x] for x in 'M NI VU L R'.split()]))]
_ONSETS = [tok(c[2]) for c in _CH['SIMPLE_CONSONANT']]
ADDAK = [Rule([(p, p + p) for p in dict.fromkeys(_ONSETS)], ph('SIL')),
         rule(ph('T', 'T_SH'), ph('T_SH', 'T_SH'), ph('SIL'))]
AUM_AON = [re_(g1('u_i'), ph('U'), ph('O'), right=g1('ans') + SKIP + EOW)]
OAM_AON = [merge(g1('oo'), ph('O', D), g1('aa_i'), ph('A', D), ph('EC', 'O'),
                 right=g1('ans') + SKIP + EOW)]
ANSVA_AON = [merge(g1('ans'), ph('NSL'), g1('v'), ph('VU'), ph('O', 'NSL'),
                   right=g1('a') + SKIP + EOW)]


def voice(pairs, left=None, right=None):
  return [Rule([(ph(a), ph(b)) for a, b in pairs], left, right)]

_ONSET = u(seq(ph('K'), ph('SH')),
           seq(ph('S'), any_of(*[P[x] for x in 'T RT NI Y VU'.split()])),
           seq(any_of(ph('VU'), ph('NI')), ph('Y')),
           seq(any_of(*[P[x] for x in 'K P G DI SH'.split()]), ph('RT')))


def _coda(*stops):
  return u(seq(CONSONANT, u(*stops)), seq(VOICED, NASAL),
           seq(_union(*_FRIC, minus='H'), _union('NASAL', minus='M')),
           seq(SIBILANT, ph('M')), seq(u(LIQUID, NASAL), NASAL),
           seq(RHOTIC, RHOTIC))

_SCHWAS = schwas(_ONSET, _coda(STOP))
_VOICED = [('K', 'G'), ('P', 'B'), ('T', 'D'), ('TI', 'DI'), ('TT', 'DD')]
_ML_CTX = u(VOWEL, APPROXIMANT, NASAL)
_TA_CTX = u(VOWEL, APPROXIMANT, NASAL, RHOTIC)

PRON = {
    'bn': A_AE + vocalic('I') + schwas(_ONSET, _coda(STOP, AFFRICATE)) +
          schwa('OH') + ANS_VELAR + jny('G', 'G') + YY_Y + OOYY_V + BH_V +
          B_V + PH_F,
    'gu': A_TO_EC + vocalic('U') + assimilate('ans') + _SCHWAS + schwa('EC') +
          ANS_DENTAL + jny('DI', 'NY') + PH_F,
    'hi': AI_EH + AU_OH + A_TO_EC + vocalic('I') + assimilate('ans') +
          _SCHWAS + schwa('EC') + ANS_DENTAL + ANS_FINAL + jny('G', 'Y') +
          PHPH_FF,
    'kn': RT_R + vocalic('U') + schwa('A') + assimilate('ans') + ANS_LABIAL +
          jny('G', 'NY'),
    'ml': FINAL_U + vocalic('EC') + schwa('A') + assimilate('ans') +
          ANS_LABIAL + RR_TT +
          voice(_VOICED + [('T_SH', 'D_ZH')], _ML_CTX,
                seq(ph('ASP') + '?', _ML_CTX)) +
          voice([('TT', 'DD')], NASAL) + jny('SIL', 'NY'),
    'mr': AI_EH + AU_OH + A_TO_EC + vocalic('U') + H_ASP +
          assimilate('ans') + _SCHWAS + schwa('EC') + ANS_DENTAL +
          jny('DI', 'NY') + PH_F,
    'pa': ADDAK + AI_EH + AU_OH + A_TO_EC + vocalic('I') + assimilate('ans') +
          assimilate('tip') + AUM_AON + OAM_AON + ANSVA_AON + _SCHWAS +
          schwa('EC') + PH_F + GEMINATE_ASP,
    'ta': vocalic('EC') + schwa('A') + assimilate('ans') + ANS_LABIAL + RR_TT +
          NR_NDR + voice([('T_SH', 'D_ZH')], ph('NY'), _TA_CTX) +
          voice(_VOICED + [('T_SH', 'S')], _TA_CTX, _TA_CTX) +
          voice([('T_SH', 'S')], BOS, _TA_CTX) + jny('SIL', 'NY'),
    'te': vocalic('U') + schwa('A') + assimilate('ans') + ANS_LABIAL +
          jny('G', 'NY'),
}

# Romanization.

SIBV_SIBW = [rule(ph('VU'), tr('w'), SIBILANT)]
NON_LABIAL = [rule(g1('ans') + EQ + any_of(P['NG'], P['NY']),
                   g1('ans') + EQ + tr('n'))]
NYJ_NJ = [rule(ph('NY'), tr('n'), right=ph('D_ZH'))]
GAAV_GAON = [merge(g1('aa'), ph('A', D), g1('v'), ph('VU'),
                   tr('a', 'o', 'n'), g1('g'))]
OO_AO = [re_(g1('oo'), ph('O', D), tr('a', 'o'), right=g1('ans'))]
AE_A = [rule(ph('AE'), tr('a'))]
OH_A = [re_(g1('a'), ph('OH'), tr('a'))]
AA_AO_CND = [re_(g1('aa'), ph('A', D), tr('a', 'o'),
                 right='%s(?:%s%s)?%s%s' % (g1('cnd'), SKIP, g1('oo'), SKIP,
                                            EOW))]
CND_OO = [re_(g1('oo'), ph('O', D), tr('DEL'), g1('cnd'), EOW)]
OOYY_W = [re_(g1('oo_i', 'yy'), ph('VU'), tr('w'))]
IYY_I = [re_(g1('yy'), ph('Y'), tr('DEL'),
             any_of(P['I'], P['U']) + ph(D) + '?')]
VOCALIC_I = [rule(ph('SYL', D), tr('s_ii'), VOCALIC),
             rule(u(VOWEL, ph('SYL')), tr('i'), VOCALIC)]
AA_INITIAL = [re_(g1('aa_i'), ph('A', D), tr('s_aa'), BOW)]
EN_LONG = [rule(ph('I', D), tr('e', 'e')), rule(ph('U', D), tr('o', 'o'))]
EE_AE = [re_(g1('ee'), ph('E', D), tr('a', 'e'))]
OO_OA = [re_(g1('oo'), ph('O', D), tr('o', 'a'), APPROXIMANT),
         re_(g1('oo'), ph('O', D), tr('o', 'a'), None, APPROXIMANT)]
TI_TH = [merge(g1('t'), ph('TI'), g1('t'), ph('TI'), tr('t', 'h')),
         re_(g1('t'), ph('TI'), tr('t', 'h')),
         re_(g1('t'), ph('DI'), tr('t', 'h'))]
TT_TR = [re_(g1('rr', 'rr'), ph('T', 'T'), tr('t', 't', 'r'))]
RD_R = [re_(g1('rd'), ph('RD'), tr('r'))]
RDH_DH = [re_(g1('rdh'), ph('RD', 'ASP'), tr('d', 'h'))]
RDH_RH = [re_(g1('rdh'), ph('RD', 'ASP'), tr('r', 'h'))]
NY_N = [rule(ph('NY'), tr('n'), right=CONSONANT)]
NY_GN = [re_(g1('ny'), ph('NY'), tr('g', 'n'), VOWEL, VOWEL)]
DIPHTHONG = [re_(g1(g), ph(v, D), tr(t)) for g, v, t in (
    ('ai', 'EH', 's_ai'), ('au', 'OH', 's_au'),
    ('ai_i', 'EH', 's_ai'), ('au_i', 'OH', 's_au'))]


def _double(t):
  d = T.get('s_' + t[1:-1] * 2)
  return d if len(t) == 3 and d else tok(t)

LONG = [rule(P[p[0]] + ph(D), _double(p[2])) for p in _phs]
NO_LONG = [rule(ph(D), '')]
CC_CCH = [merge(g1('c'), tr('s_ch'), g1('c'), tr('s_ch'), tr('c', 's_ch'))]
CCH_CHH = [merge(g1('c'), tr('s_ch'), g1('ch'), tr('s_ch', 'h'),
                 tr('s_ch', 'h'))]
SHSH_SSH = [merge(g1(x), tr('s_sh'), g1(x), tr('s_sh'), tr('s', 's_sh'))
            for x in ('ss', 'sh')]
BY_PSA = [Rule([(P[p[0]], tok(p[2])) for p in _phs])]
COMMON = DIPHTHONG + NON_LABIAL + RDH_DH
GEMINATES = CC_CCH + CCH_CHH + SHSH_SSH


def spell(*gs):
  """A letter's name: these graphemes, whatever they stand for."""
  return ''.join('%s%s%s' % (gr(*g.split('/')), EQ, _R) for g in gs)

_A, _AI = 'a/aa', 'a_i/aa_i'
_E, _EI = 'e/ee', 'e_i/ee_i'
_I, _II = 'i/ii', 'i_i/ii_i'
_OI, _U = 'o_i/oo_i', 'u/uu'
ACRONYM = [
    ('A', _EI), ('B', 'b', _I), ('C', 's', _I), ('D', 'dd', _I), ('E', _II),
    ('F', _EI, 'f/ph', 'a'), ('G', 'j', _I), ('H', _EI, 'c', 'a'),
    ('I', _AI, _II), ('J', 'j', _E), ('K', 'k', _E), ('L', _EI, 'l', 'a'),
    ('M', _EI, 'm', 'a'), ('N', _EI, 'n', 'a'), ('O', _OI), ('P', 'p', _I),
    ('Q', 'k', 'y', _U), ('R', _AI, 'r', 'a'), ('S', _EI, 's', 'a'),
    ('T', 'tt', _I), ('U', 'y', _U), ('V', 'v', _I),
    ('W', 'dd', 'a', 'b', 'l', _U), ('W', 'dd', 'a', 'b', 'l', 'y', _U),
    ('W', 'dd', 'a', 'b', 'a', 'l', 'y', _U),
    ('W', 'dd', 'a', 'b', 'l', 'a', 'y', _U), ('X', _EI, 'k', 's', 'a'),
    ('Y', 'v', _A, _II), ('Z', 'j/z', _E, 'dd', 'a')]
_UC = '[%s]*' % ''.join(v for k, v in T.items() if k.endswith('_uc'))
HI_ACRONYM = [Rule([(spell(*a[1:]), T[a[0] + '_uc']) for a in ACRONYM],
                   BOS + _UC, '(?:%s)*' % u(*[spell(*a[1:]) for a in ACRONYM])
                   + EOS)]

_BN_PSA = AE_A + OH_A + RD_R
_DRAVIDA = SIBV_SIBW + NY_N + NY_GN
_OO_GAON = SIBV_SIBW + OO_AO + GAAV_GAON + COMMON + NO_LONG + BY_PSA + GEMINATES
NAT = {
    'bn': _BN_PSA + SIBV_SIBW + NYJ_NJ + AA_AO_CND + CND_OO + OOYY_W + IYY_I +
          NO_LONG + BY_PSA + GEMINATES,
    'gu': _OO_GAON, 'mr': _OO_GAON,
    'hi': SIBV_SIBW + AA_INITIAL + RDH_RH + COMMON + NO_LONG + BY_PSA +
          GEMINATES,
    'kn': COMMON + BY_PSA, 'te': COMMON + BY_PSA,
    'ml': EN_LONG + TI_TH + _DRAVIDA + COMMON + BY_PSA + GEMINATES,
    'pa': RD_R + SIBV_SIBW + COMMON + NO_LONG + BY_PSA + GEMINATES,
    'ta': EN_LONG + EE_AE + OO_OA + TI_TH + TT_TR + _DRAVIDA + COMMON +
          BY_PSA + GEMINATES,
}
FINE = {l: (_BN_PSA if l == 'bn' else VOCALIC_I + COMMON if l in ('ml', 'ta')
            else COMMON) + LONG + BY_PSA for l in LANGS}
COARSE = {l: (_BN_PSA if l == 'bn' else COMMON) + NO_LONG + BY_PSA
          for l in LANGS}


def dedup(s):
  """Single spelling of what is spelled twice, in the coarse romanization."""
  for x in _squeeze:
    s = x(s)
  return s


def _squeezer(items):
  def f(s):
    out, i = [], 0
    while i < len(s):
      for x in items:
        if s.startswith(x + x, i):
          out.append(x)
          i += 2 * len(x)
          break
      else:
        out.append(s[i])
        i += 1
    return ''.join(out)
  return f

_squeeze = [_squeezer(_D['substrings']),
            _squeezer('abcdefghijklmnopqrstuvwxyz')]


def run(rules, texts, fired=None):
  for k, r in enumerate(rules):
    new = set()
    for t in texts:
      o = r(t)
      if fired is not None and o != {t}:
        fired.add(id(r))
      new |= o
    texts = new
  return texts


_NOT_R = re.compile('[%s%s]' % (''.join(GRS), EQ))
_IPA_RE = re.compile('|'.join(sorted(map(re.escape, IPA), key=len,
                                     reverse=True)))


def latin(t):
  t = _NOT_R.sub('', t)
  if any(c not in TRS for c in t):
    return None
  return ''.join(TRS[c] for c in t)


def ipa(t):
  t = _NOT_R.sub('', t)
  out, i = [], 0
  while i < len(t):
    m = _IPA_RE.match(t, i)
    if not m:
      return None
    out.append(IPA[m[0]])
    i = m.end()
  return ''.join(out)


def transduce(lang, iso, fired=None):
  """{'ipa', 'psaf', 'psac', 'nat': set of results}, empty where unreadable."""
  g = letters(iso)
  if g is None:
    return {k: set() for k in ('ipa', 'psaf', 'psac', 'nat')}
  a = {''.join(_ASSIGN[c] for c in x) for x in g}
  txn = run(PRON[lang], a, fired)
  r = {'ipa': {ipa(x) for x in txn},
       'psaf': {latin(x) for x in run(FINE[lang], txn, fired)},
       'psac': {latin(x) for x in run(COARSE[lang], txn, fired)}}
  if lang == 'hi':
    b = run(HI_ACRONYM, a, fired)
    txn = txn if a == b else run(PRON[lang], b, fired)
  r['nat'] = {latin(x) for x in run(NAT[lang], txn, fired)}
  for k in r:
    r[k].discard(None)
  r['psac'] = {dedup(x) for x in r['psac']}
  return r
