"""Makes data/natural.json: the symbols of the natural transliteration library.

Run once, by hand, in a runfiles tree. The check reads the committed file.
"""
import json
import sys

from nisaba.scripts.natural_translit.brahmic import grapheme_inventory as iso
from nisaba.scripts.natural_translit.brahmic import phoneme_inventory as psa
from nisaba.scripts.natural_translit.latin import ltn_inventory as ltn
from nisaba.scripts.natural_translit.phonology import phoneme_inventory as mul

def s(f):
  try:
    return f.string()
  except Exception:
    return None

d = {}
groups = ('SIMPLE_VOWEL_SIGN INHERENT_VOWEL SIMPLE_CONSONANT SIMPLE_CODA '
          'OM_VOWEL MODIFIER VIRAMA SYMBOL LONG_VOCALIC SHORT_VOCALIC '
          'DIPHTHONG_SIGN SANTAL_AAN INDEPENDENT_NONVOCALIC '
          'INDEPENDENT_VOCALIC INDEPENDENT_A ASPIRATED_CONSONANT '
          'DEAD_CONSONANT CND OM').split()
d['chars'] = {g: [[c.typ, c.glyph, s(c.ph), s(c.cmp) if c.cmp else None]
                  for c in getattr(iso, g)] for g in groups}
assert sum(map(len, d['chars'].values())) == len(iso.CHAR)
groups = ('SILENCE VOWEL_MOD CONS_MOD VOWEL NASAL VOICELESS_STOP VOICED_STOP '
          'VOICELESS_FRICATIVE VOICED_FRICATIVE VOICELESS_AFFRICATE '
          'VOICED_AFFRICATE APPROXIMANT TAP_TRILL').split()
d['phonemes'] = {g: [[p.alias, s(p.ph), s(p.tr_dict['psa'])]
                     for p in getattr(psa, g)] for g in groups}
assert sum(map(len, d['phonemes'].values())) == len(psa.PHONEMES)
d['ipa'] = {s(p.ph): p.ipa for p in mul.PHONEMES + [mul.MOD_INVENTORY.DURH]
            if s(p.ph) in own}
d['ipa'] = {s(p.ph): p.ipa for p in mul.PHONEMES + [mul.MOD_INVENTORY.DURH]}
d['ltn'] = {s(c.tr): c.glyph for c in ltn.CHARS}
d['substrings'] = [c.glyph for c in ltn.OTHER_SUBSTRING]
json.dump(d, sys.stdout, indent=0, ensure_ascii=False, sort_keys=True)
