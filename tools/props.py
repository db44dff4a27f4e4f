"""The properties, and the manifest. `python3 tools/props.py` writes
properties.jsonl and MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'nisaba/scripts/brahmic/'
A = 'nisaba/scripts/abjad_alphabet/'
N = 'nisaba/scripts/natural_translit/'
U = 'nisaba/scripts/utils/'

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, quant, why, files, mech, technique, note,
      observe=(), state=()):
  PROPS.append((dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=quant), why_tests_cant=why,
      anchors=dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   observe_at=list(observe), hook_needed=None)),
                technique, note))


P('P01', 'Converting Brahmic text to ISO 15919 and back loses nothing',
  'For each supported Brahmic script, any text made of the letters, signs and '
  'marks the script supports converts to a romanization without native '
  'characters, and converting that back gives the original text in NFC. Both '
  'directions have exactly one best result, and the byte and UTF-8 variants '
  'of the converters agree.',
  ['inputs'], 'all texts, well-formed or not, over the supported letters and '
  'signs of each of the 20 scripts, in any order',
  'The tests sample some letters and words per script; ambiguity and loss '
  'come from neighbourhoods of letters (vowel after vowel, virama before '
  'vowel, joiners, sequences read as one), which are unbounded.',
  [B + 'iso.py', B + 'data'],
  [('converter construction', B + 'iso.py'),
   ('letter tables', B + 'data/*/{consonant,vowel,coda,...}.textproto')],
  'runtime monitor: round-trip and ambiguity oracle over generated texts',
  'Exhaustive up to two units per script, random beyond; trusts the pinned '
  'list of supported units.', ['iso.far, iso_utf8.far FSTs'])

P('P02', 'One romanizer for text that mixes Brahmic scripts with anything else',
  'The script-independent ISO romanizer accepts any text: runs of text that '
  "one script's converter takes are converted as that converter does, and "
  'characters outside the supported Brahmic scripts (Latin letters, digits, '
  'punctuation, other scripts, emoji) are copied unchanged. The result is '
  'unique, and the Python API gives the same one.',
  ['inputs'], 'all concatenations of runs of any of the 20 scripts and of '
  'other characters', 'Tests use a handful of one-script words; the number of '
  'mixtures, and the ways in which copying could win over converting, are '
  'unbounded.',
  [B + 'iso.py', B + '__init__.py'],
  [('union of converters with weighted pass-through', B + 'iso.py'),
   ('Python API', B + '__init__.py')],
  'runtime monitor: differential oracle against the per-script converters',
  'Random mixtures; the expected result is built from the converter of each '
  'script, which P01 and P03 decide.', ['iso.far FROM_BRAHMIC', 'ToIso()'])

P('P03', 'Romanization follows ISO 15919, letter by letter, in all scripts',
  'The romanization of a well-formed word is the sequence of the ISO 15919 '
  'values of its letters: a consonant has the inherent vowel unless a vowel '
  'sign or virama follows, and an independent vowel after a syllable is marked '
  "off by '.'. Letters of the same name have the same value in all scripts, "
  'apart from the listed exceptions of a script.',
  ['inputs'], 'all well-formed words of each script',
  'Tests check some words of some scripts; a wrong value, or a wrong rule for '
  'one letter in one script, is only visible on words with that letter in '
  'that position.',
  [B + 'iso.py', B + 'data'],
  [('converter construction', B + 'iso.py'),
   ('letter tables', B + 'data/*/*.textproto')],
  'runtime monitor: reference romanizer keyed by Unicode letter names',
  'Values of letters come from data/iso_names.json, keyed by Unicode names '
  'and shared by all scripts; random words.', ['iso.far FROM_*'])

P('P04', 'Brahmic NFC normalizers compute Unicode NFC',
  'For any text over the alphabet of a supported Brahmic script the NFC '
  'normalizer gives exactly one result, the NFC form of the text as Unicode '
  'defines it, and normalizing again changes nothing. The normalizer for all '
  'scripts and the byte and UTF-8 variants give the same result. The alphabet '
  'acceptor of a script accepts just the single characters that it takes.',
  ['inputs'], 'all texts over the alphabet of each script, and mixtures of '
  'scripts', 'Tests check single composition pairs; interactions of adjacent '
  'pairs, excluded compositions and repeated marks are unbounded.',
  [B + 'nfc.py', B + 'sigma.py', B + 'char_util.py', B + 'data'],
  [('composition rules', B + 'data/*/nfc.textproto'),
   ('rule application', U + 'rule.py')],
  'runtime monitor: differential oracle against unicodedata.normalize',
  'All texts of up to two characters per script, random beyond. Two known '
  'findings (no canonical reordering of marks) are listed.',
  ['nfc.far, nfc_utf8.far, sigma_utf8.far'])

P('P05', 'Visual normalization gives one stable, well-formed spelling',
  'For well-formed text in a supported Brahmic script (or Assamese or Bangla), '
  'visual normalization gives exactly one result, which is well-formed, in NFC '
  'and not changed by normalizing again. Canonically equivalent texts get the '
  'same result, joiners survive only in the listed sequences between '
  'consonants, and the byte and UTF-8 variants agree.',
  ['inputs'], 'all texts of each script (well-formed ones for stability, '
  'well-formedness and NFC)', 'Tests check listed rewrites in isolation; '
  'rewrites can enable or undo each other in context.',
  [B + 'visual_norm.py', B + 'data'],
  [('composition of NFC, joiner removal and rewrites', B + 'visual_norm.py'),
   ('rewrite tables', B + 'data/*/visual_rewrite.textproto')],
  'runtime monitor: metamorphic oracles (stability, equivalence, closure)',
  'Random texts rich in rewritable sequences; well-formedness is judged by the '
  'acceptor, which P06 decides.', ['visual_norm.far', 'wellformed.far'])

P('P06', 'Well-formedness acceptors accept exactly the syllables of a script',
  'The well-formedness acceptor of a script accepts a text just if it is a '
  'sequence of syllables: an independent vowel, or a cluster of consonants '
  'joined by viramas (or listed joiner sequences) with an optional vowel sign, '
  'each with optional length mark, coda and dead consonant, besides a cluster '
  'ending in a virama, standalone and otherwise accepted characters. The byte '
  'and UTF-8 variants agree.',
  ['inputs'], 'all texts over letters, signs, joiners and foreign characters',
  'Tests check a few accepted and rejected words per script; near-misses of '
  'the syllable structure are unbounded.',
  [B + 'wellformed.py', B + 'data'],
  [('acceptor construction', B + 'wellformed.py'),
   ('letter tables', B + 'data/*/*.textproto')],
  'runtime monitor: reference regular expression as acceptance oracle',
  'All of up to two units (thorough), words and near misses; trusts the '
  'pinned units.', ['wellformed.far'])

P('P07', 'Normalizers rewrite text just as their tables say',
  'Visual, reading and fixed-rule normalizers of Brahmic scripts change a text '
  'only by applying the listed rewrites, in the listed order of layers and in '
  'the listed contexts, to every place where they apply. Each listed spelling '
  'is rewritten to its listed form.',
  ['inputs'], 'all texts of each script', 'Tests check the listed rewrites one '
  'by one; overlapping and adjacent matches, and text that must not change, '
  'are unbounded.',
  [B + 'visual_norm.py', B + 'reading_norm.py', B + 'fixed.py',
   U + 'rule.py', B + 'data'],
  [('rewrite rules', U + 'rule.py'),
   ('layers', B + 'visual_norm.py')],
  'runtime monitor: executable reference model of the rewrite layers',
  'Random texts; the model reads the tables as built and a recorded result '
  'per listed spelling.', ['visual_norm.far', 'reading_norm.far', 'fixed.far'])

P('P08', 'The Python APIs normalize and accept text word by word',
  'For any line and any set of ignored characters, the normalizer APIs keep '
  'ignored characters as they are and replace each maximal run of other '
  'characters by its normalization; the Brahmic one raises its ill-formedness '
  'error just if some normalized word is not well-formed. Applying any single '
  'grammar gives its best output, or an input error just if the grammar does '
  'not take the text, whatever characters (brackets and backslashes included) '
  'the text has; unknown scripts and tags raise the documented errors, and '
  'use from several threads changes no result.',
  ['inputs', 'schedules', 'configurations'], 'all lines, sets of ignored '
  'characters, scripts and languages, and interleavings of threads',
  'Tests apply a few words in one thread with default settings; special '
  'characters of regular expressions and of string compilation are not '
  'sampled.',
  [B + '__init__.py', A + '__init__.py', U + 'far.py'],
  [('splitting at ignored characters', B + '__init__.py'),
   ('escaping', U + 'far.py'), ('caching of archives', U + 'far.py')],
  'runtime monitor: differential oracle at the API boundary, thread stress',
  'Random lines; thread interleavings are those the interpreter happens to '
  'take at a short switch interval.', ['ApplyOnText, ApplyOnWord, AcceptText'])

P('P09', 'Visual and reading normalization of Arabic-script languages',
  'For each supported Arabic-script language, visual and reading '
  'normalization of any text give exactly one result, made by applying the '
  'listed rewrites everywhere in their positions of a word (anywhere, '
  'nonfinal, final, isolated) and nothing else. Presentation forms are '
  'normalized like the letters they stand for, normalizing twice equals once, '
  'and the byte and UTF-8 variants agree.',
  ['inputs'], 'all texts over the Arabic-script alphabet, in 14 languages '
  '(stability: without joiners, marks in canonical order)',
  'Tests check some listed words; rules of four positions interact with '
  'each other, with joiners and with neighbours in unboundedly many ways.',
  [A + 'visual_norm.py', A + 'visual_norm_common.py', A + 'reading_norm.py',
   A + 'data/Arab'],
  [('positional rules', A + 'visual_norm.py'),
   ('tables', A + 'data/Arab/*/visual_norm*.textproto')],
  'runtime monitor: executable reference model and metamorphic oracles',
  'Random texts over all rules of each language; the model reads the tables '
  'as built; results for listed spellings are recorded. Known findings list '
  'two unstable spellings.', ['visual_norm.far', 'reading_norm.far'])

P('P10', 'Arabic-script NFC, and romanization that can be reversed',
  'NFC normalization of Arabic-script text gives exactly one result, which is '
  'canonically equivalent to the text, and is its NFC whenever the marks of '
  'the text are in canonical order. Reversible romanization of such text is '
  'unique, letter by letter, without native characters, and converting it '
  'back gives exactly the NFC of the text; other characters are copied by the '
  'Python API.',
  ['inputs'], 'all texts over Arabic-script letters and marks',
  'Tests check single letters and some words; ambiguity of the romanization '
  'and composition depend on neighbours.',
  [A + 'nfc.py', A + 'reversible_roman.py', A + '__init__.py', A + 'data/Arab'],
  [('composition table', A + 'data/Arab/nfc.textproto'),
   ('romanization table', A + 'data/Arab/reversible_roman.textproto')],
  'runtime monitor: round-trip oracle, unicodedata as NFC oracle',
  'All letter pairs in part, random texts beyond; letter values are recorded '
  'in data/abjad.json.', ['nfc.far', 'reversible_roman.far'])

P('P11', 'Tables hold exactly what their Unicode string text protos say',
  'Converting a UnicodeStrings text proto gives one table row per item, in '
  'order: the characters (or named sequences) that the names stand for under '
  'the given prefixes, or the raw text. An item whose names do not resolve to '
  'exactly one character each, whose names and raw text disagree, or that has '
  'no source is refused, and control characters are never named. Reading such '
  'a proto, or a LetterLanguages one, fills in exactly the missing raw text. '
  'Every table of the tree is what its proto says.',
  ['inputs'], 'all protos: any names, aliases, sequences, prefixes, raw text, '
  'and mappings',
  'Tests convert a handful of items; every grammar is built from these '
  'tables, so an item read wrongly silently changes a script.',
  [U + 'unicode_strings_util.py', U + 'unicode_strings_to_tsv.py',
   U + 'letter_languages.py', U + 'proto.py'],
  [('name resolution', U + 'unicode_strings_util.py'),
   ('table writer', U + 'unicode_strings_to_tsv.py')],
  'runtime monitor: independent converter as oracle, on random and all '
  'committed protos',
  'Random protos; unicodedata is trusted for names of characters.',
  ['convert_item, read_textproto, the tool as a process'])

P('P12', 'The rewrite rule engine applies rules as its documentation says',
  'Rules are read from a file as they are written. Unordered rules are '
  'partitioned so that a rule whose left side contains that of another comes '
  'strictly before it, and each set is applied from left to right, obligatorily '
  'and at once; contradictory rules are refused. Cascading rules are applied '
  'one after another. Rewrites respect their contexts. A composition is its '
  'parts in order, whatever their sizes. Every text over the alphabet has '
  'exactly one, free result. String files, closures that are safe for empty '
  'FSTs, alphabets made from files and archives give exactly what they hold.',
  ['inputs'], 'all rule sets and all texts over an alphabet, in byte and UTF-8 '
  'mode',
  'The engine has no tests of its own; its behaviour on overlapping and '
  'nested rules, and the composition order, show on few of the grammars.',
  [U + 'rule.py', U + 'rewrite.py', U + 'file.py', U + 'char.py',
   U + 'func.py'],
  [('partition', U + 'rule.py partition_unordered'),
   ('composition heuristics', U + 'rewrite.py ComposeFsts')],
  'runtime monitor: executable reference model over random rule sets',
  'All texts up to 3-4 symbols and random ones per random rule set.',
  ['fst_from_rules, fst_from_cascading_rule_file, ComposeFsts, Rewrite'])

P('P13', 'Pronunciation and romanization follow the rules of each language',
  'For Bengali, Gujarati, Hindi, Kannada, Malayalam, Marathi, Punjabi, Tamil '
  'and Telugu, every ISO 15919 text gets the pronunciation in IPA, the fine '
  'and coarse pan-South-Asian romanization and the natural romanization which '
  "the language's ordered rules (schwa, anusvara, voicing, geminates, "
  'acronyms, ...) say, and exactly one of each; byte, UTF-8 and end-to-end '
  'transducers agree, and what they cannot read is copied or refused alike.',
  ['inputs'], 'all ISO 15919 texts, in nine languages',
  'Tests give some dozens of words per language; rules interact with all '
  'their neighbours and with each other.',
  [N + 'brahmic/g2p.py', N + 'brahmic/romanizer.py',
   N + 'language_params/hi.py', N + 'phonology/transcriptor.py',
   N + 'phonology/operations/voicing.py', N + 'utils/rewrite_functions.py'],
  [('pronunciation rules', N + 'brahmic/g2p.py'),
   ('rules per language', N + 'language_params/')],
  'runtime monitor: executable reference model of the rules as oracle',
  'All short frames of letters plus random words; letter values are recorded '
  'in data/natural.json.', ['g2p/*.far, romanization/*.far, languages/*.far'])

P('P14', 'Deromanization gives one well-formed text for all Latin letters',
  'For every string of Latin small letters the Hindi and Tamil deromanizers '
  'give exactly one ISO text and one native text, those which the rules of '
  'the language say (digraphs before letters, aspiration, geminates, long '
  'vowels, anusvara, inherent vowels). The native text is well-formed, the '
  'two stand for each other under ISO conversion, bytes and UTF-8 agree, and '
  'no other text is read.', ['inputs'], 'all strings over a-z, two languages',
  'brahmic/README.md promises that deromanization never fails for any string '
  'of Latin letters; tests have a few words.',
  [N + 'brahmic/deromanizer.py', N + 'brahmic/derom_inventory.py',
   N + 'language_params/hi.py', N + 'language_params/ta.py'],
  [('rules', N + 'brahmic/deromanizer.py'),
   ('letters', N + 'brahmic/derom_inventory.py')],
  'runtime monitor: executable reference model and round-trip oracle',
  'All strings of up to 3 (thorough: half of those of 4) letters, random ones '
  'beyond.', ['deromanization/{hi,ta}_*.far'])

P('P15', 'Spelled-out English letters are the names of the letters, joined',
  'In each of the 13 languages, every word of English letters, whatever their '
  'case, is spelled out as the names of its letters in order: spaced in '
  'Arabic script, kept apart by a zero-width non-joiner after a final '
  'consonant in Kannada, Malayalam and Telugu, else joined, with nothing '
  'after the last one. The result is unique, NFC, well-formed and without '
  'Latin letters; other text is refused; bytes and UTF-8 agree.',
  ['inputs'], 'all words over A-Za-z, in 13 languages',
  'Tests spell a dozen words; separators depend on neighbouring letters.',
  [N + 'brahmic/en_spellout.py', N + 'deromanization/en_spellout.py'],
  [('speller', N + 'brahmic/en_spellout.py speller'),
   ('names', N + 'brahmic/en_spellout.py _spellout_inventory')],
  'runtime monitor: concatenation oracle over the recorded letter names',
  'All words of up to 2 (thorough: 3) letters, random ones beyond.',
  ['deromanization/en_spellout.far'])

P('P16', 'Expressions compare by the symbol sequences they stand for',
  'An expression of symbols stands for the sequences its structure spells '
  'out: a concatenation for every choice of one sequence per item, with '
  'nothing as its unit and the impossible symbol as its zero, an alternative '
  'for those of each item. Two expressions accept, match, contain, begin or '
  'end with each other exactly when those sequences say so, however they were '
  'built or nested; copies, repetitions and optional parts stand for what '
  'they say and building one changes no other. An alignment matches its two '
  'sides and its two contexts so, '
  'costs what it was given, and shows all of its parts.',
  ['inputs', 'history'], 'all expressions over an alphabet, and pairs of them',
  'Tests compare a few dozen fixed expressions of two or three symbols.',
  [N + 'utils/expression.py', N + 'utils/symbol.py'],
  [('state lists', N + 'utils/expression.py Cat, Or'),
   ('comparison', N + 'utils/expression.py Expression.accepts, matches, '
    'contains'), ('alignments', N + 'utils/expression.py Alignment')],
  'runtime monitor: online reference model of symbol languages',
  'Random expressions nested up to four deep, built in several orders, '
  'compared in all pairs of a pool, with the pool re-checked afterwards.')

P('P17', 'Feature distances, sets and profiles follow the trees of values',
  'The distance between two values of an aspect is what the lowest list above '
  'both says: its step, or that times how far apart they are, in a line or '
  'around a cycle; any is at no distance and n_a at the greatest. It is '
  'symmetric, and least over all pairs for sets. Set operations are those of '
  'sets, ranges and negations those of the lists, and a value list is '
  'wherever a value under it is. A profile has values for every aspect, '
  'similarity is one minus the share of the greatest distance, and updating a '
  'set, profile or copy changes nothing else.',
  ['inputs', 'history'], 'all trees of values, sets, profiles and operations',
  'Tests use two small inventories and fixed profiles.',
  [N + 'utils/feature.py', N + 'phonology/features/descriptive.py'],
  [('distances', N + 'utils/feature.py Feature.ValueList, Feature.Aspect'),
   ('sets', N + 'utils/feature.py Feature.Set'),
   ('profiles', N + 'utils/feature.py Feature.Profile, MultiProfile')],
  'runtime monitor: online reference model of trees, sets and profiles',
  'Random trees nested up to four deep and the shipped inventories, all pairs '
  'of values; random sets and profiles, with earlier ones re-checked.')

P('P18', 'Inventories keep what is added, find it again, and share nothing else',
  'An inventory has exactly what was added and not rejected, in order, under '
  'unique aliases; supplements are not items. Symbols are found by index, raw '
  'and text, a text is parsed into symbols that spell it, and a character that '
  'is not known becomes a new symbol with an alias and index of its own. What '
  'is rejected stays as it was, and so do control symbols. Copies and imports '
  'have equal but independent features, atomics those of their symbols. '
  'Operations are closed under match, partial and unexpected, lattices give '
  'each node one state of their FST, and the phonemes and graphemes that ship '
  'have the features that their names say.',
  ['inputs', 'history'],
  'all histories of additions, imports, copies, parses and lookups',
  'Tests build one small inventory of each kind.',
  [N + 'utils/inventory.py', N + 'utils/type_op.py', N + 'utils/symbol.py',
   N + 'utils/operation.py', N + 'utils/lattice.py',
   N + 'phonology/phonological_symbol.py', N + 'script/grapheme.py',
   N + 'phonology/inventories/x_uni.py', N + 'script/inventories/latn.py',
   N + 'language_params/en.py'],
  [('items', N + 'utils/inventory.py Inventory'),
   ('symbols', N + 'utils/symbol.py Symbol.Inventory'),
   ('phonemes', N + 'phonology/phonological_symbol.py Phon.Inventory'),
   ('graphemes', N + 'script/grapheme.py Grapheme.Inventory'),
   ('operations', N + 'utils/operation.py Operation.Inventory'),
   ('states', N + 'utils/lattice.py Lattice')],
  'runtime monitor: online reference model of inventory histories',
  'Random histories on several inventories at once, compared with the model '
  'after every step; every shipped phoneme and grapheme against its name.')

P('P19', 'Rewrite rules, FST lists, characters and phonemes do what they say',
  'A rewrite rule replaces, from left to right, every old string that stands '
  'between its contexts, next to them or across one alignment, with its new '
  'one, and nothing else; lists of pairs are one such rule; reassigning keeps '
  'the left side, merging joins both. Extraction of right sides drops all '
  'graphemes and alignment signs and nothing else. Lists of FSTs keep their '
  'items. Characters and phonemes, derived and composed ones too, have the '
  'typ, glyph, features, IPA, parts and transliterations that follow from what '
  'they are made of, and leave that unchanged; every shipped phoneme has the '
  'features of its IPA symbol.',
  ['inputs'],
  'all rules, contexts, aligned strings, characters and phonemes',
  'Tests run about twenty rules on a string each.',
  [N + 'utils/rewrite_functions.py', N + 'utils/alignment.py',
   N + 'utils/concat.py', N + 'utils/fst_list.py', N + 'script/char.py',
   N + 'phonology/phon.py', N + 'phonology/modify_phon.py',
   N + 'phonology/phoneme_inventory.py', N + 'phonology/romanizer.py',
   N + 'phonology/transcriptor.py', N + 'phonology/operations/syllable.py'],
  [('rewrite', N + 'utils/rewrite_functions.py rewrite_op'),
   ('adjacent', N + 'utils/concat.py concat_r'),
   ('list', N + 'utils/fst_list.py FstList'),
   ('char', N + 'script/char.py Char'),
   ('phon', N + 'phonology/modify_phon.py compose'),
   ('shipped', N + 'phonology/phoneme_inventory.py PHONEMES')],
  'runtime monitor: online reference model of rewrite rules over strings',
  'Random rules of every kind with random contexts, run on random aligned '
  'strings and compared with a simulation of obligatory rewriting; random '
  'characters and phonemes compared field by field; all shipped phonemes.')

P('P20', 'Error rates and earth mover\'s distances are those of the given files',
  'For every file of references and file of outputs, the error rate tool '
  'reports, for each example, the edit distance between the cheapest output '
  '(the first of several; the empty string if there is none) and the reference '
  'with the least error rate (the first), the length of that reference, a split '
  'of the edits into substitutions, deletions and insertions that accounts for '
  'the lengths, and sums and an overall rate of exactly these. Tokens are '
  'characters, with runs of breaking whitespace as one space, or words. '
  'Pairwise, each example with references gives one line of valid JSON with '
  'the strings, normalized probabilities, all distances and the lengths, in '
  'order; the earth mover\'s distance, its flow, expected reference length and '
  'totals are those of these lines. Files that cannot be read or written are '
  'failures. No input of that format causes undefined behaviour.',
  ['inputs', 'faults'],
  'all files in the documented format, with gaps, blanks, empty and missing '
  'outputs, ties, large costs, any whitespace and quotes, and full disks',
  'Tests have one file of three examples and one of two.',
  ['nisaba/translit/tools/calculate_error_rate.cc',
   'nisaba/translit/tools/calculate_error_rate.h',
   'nisaba/translit/tools/calculate_error_rate_main.cc',
   'nisaba/translit/tools/emd_cer.py',
   'nisaba/translit/tools/calculate_emd_cer.py',
   'nisaba/port/file_util.cc', 'nisaba/port/utf8_delimiters.cc'],
  [('rate', 'nisaba/translit/tools/calculate_error_rate.cc CalculateMinErrorRate'),
   ('json', 'nisaba/translit/tools/calculate_error_rate.cc WritePairwiseEdits'),
   ('tool', 'nisaba/translit/tools/calculate_error_rate_main.cc main'),
   ('emd', 'nisaba/translit/tools/emd_cer.py emd_error_and_length')],
  'address and undefined-behaviour sanitizers and an offline checker of all '
  'reported numbers against an own edit distance and transport solver',
  'The real C++ compiled with sanitizers and driven with random files; its '
  'reports and JSON recomputed from the files; the Python tools on these and '
  'on random lines, against exact minimum-cost transport.')

P('P21', 'The portability library handles UTF-8, files, threads and time as stated',
  'Every code point is encoded as its well-formed UTF-8 sequence and decoded '
  'from it; text is split into exactly its characters, ill-formed text into '
  'none, and decoding it gives the replacement character and one byte. Text is '
  'split at breaking whitespace of Unicode and nowhere else. Files have what '
  'was written and give it back, whole, in parts, as lines without their '
  'endings and not longer than allowed, and as messages in text or binary '
  'format; names may be views of longer strings; failures are reported. '
  'Streams write all bytes in order. A thread pool runs every task once, in the '
  'order of scheduling, on up to the given number of threads at once, before '
  'its destructor returns, without data races. No input causes undefined '
  'behaviour.',
  ['inputs', 'schedules', 'faults'],
  'all strings, byte sequences, file histories, numbers of threads, producers '
  'and tasks, and failing writes',
  'Tests have a few strings, one file and one pool of tasks.',
  ['nisaba/port/utf8_util.cc', 'nisaba/port/utf8_delimiters.cc',
   'nisaba/port/unicode_properties.cc', 'nisaba/port/file.cc',
   'nisaba/port/file.h', 'nisaba/port/file_util.cc',
   'nisaba/port/proto_file_stream.cc', 'nisaba/port/thread_pool.h',
   'nisaba/port/timer.h'],
  [('utf8', 'nisaba/port/utf8_util.cc DecodeUnicodeChar'),
   ('spaces', 'nisaba/port/utf8_delimiters.cc Utf8Delimiter::Find'),
   ('files', 'nisaba/port/file_util.cc ReadLines'),
   ('file', 'nisaba/port/file.cc File'),
   ('stream', 'nisaba/port/proto_file_stream.cc ProtoFileOutputStream'),
   ('pool', 'nisaba/port/thread_pool.h ThreadPool')],
  'thread, address and undefined-behaviour sanitizers; offline checkers of '
  'event logs of thread pools and of file histories; exhaustive UTF-8',
  'The real C++ with sanitizers: all code points and short byte sequences '
  'against table 3-7 of Unicode, random file histories with faults against a '
  'model, and logs of thread pools under random schedules.')

P('P22', 'The C++ grammar runtime applies exactly the rules of an archive',
  'Archives load with their rules, brackets, stacks and generated symbols. For '
  'any rule, cascade and input, rewriting succeeds exactly if the rules accept '
  'the input; the top rewrite is one of the outputs of least weight, the one '
  'top rewrite is given exactly if it is the only one, all top rewrites are '
  'all of them, the n best are the n cheapest, and all rewrites are all the '
  'outputs, each once, or a failure if there are endlessly many; labels, '
  'strings, debug strings, repeated fields, weights and lattices agree, and an '
  'output matches exactly if it is one. Paths of a machine are each given once, '
  'and again after a reset. The interactive tester shows these outputs. '
  'Grammars, normalizers and reading norms of Brahmic scripts and languages '
  'give what their FSTs give, may share managers, and may be used by threads '
  'at once. Nothing causes undefined behaviour.',
  ['inputs', 'schedules'],
  'all archives of rules, inputs, numbers of outputs, cascades, machines and '
  'Brahmic texts',
  'Tests have one archive each and a few words; weights, ties, brackets, '
  'endless outputs, resets and sharing are not in them.',
  ['nisaba/interim/grm2/thrax/abstract-grm-manager.h',
   'nisaba/interim/grm2/thrax/grm-manager.h',
   'nisaba/interim/grm2/thrax/rewrite-tester.cc',
   'nisaba/interim/grm2/rewrite/rewrite.h',
   'nisaba/interim/grm2/rewrite/rewrite_manager.h',
   'nisaba/interim/grm2/rewrite/rule_cascade.h',
   'nisaba/interim/grm2/rewrite/base_rule_cascade.h',
   'nisaba/interim/grm2/rewrite/parentheses.h',
   'nisaba/interim/grm2/paths/paths.h',
   'nisaba/interim/grm2/string/stringprint.h',
   'nisaba/scripts/brahmic/grammar.cc', 'nisaba/scripts/brahmic/grammar.h',
   'nisaba/scripts/brahmic/far.cc', 'nisaba/scripts/utils/far_base.cc'],
  [('manager', 'nisaba/interim/grm2/rewrite/rewrite_manager.h RewriteManager'),
   ('cascade', 'nisaba/interim/grm2/rewrite/base_rule_cascade.h '
    'BaseRuleCascade'),
   ('thrax', 'nisaba/interim/grm2/thrax/abstract-grm-manager.h '
    'AbstractGrmManager'),
   ('paths', 'nisaba/interim/grm2/paths/paths.h PathIterator'),
   ('tester', 'nisaba/interim/grm2/thrax/rewrite-tester.cc RewriteTester'),
   ('grammar', 'nisaba/scripts/brahmic/grammar.cc Grammar')],
  'thread, address and undefined-behaviour sanitizers; a reference interpreter '
  'of weighted rules with stacks, as an oracle',
  'The real C++ with sanitizers on random archives, against an interpreter '
  'which follows the arcs of the rules one by one; Brahmic archives against '
  'the same archives composed in Python.')

P('P23', 'N-best lists of strings are exact; words become the right wordpieces',
  'From a lattice of candidates for each word, the extractor gives the k '
  'choices of least total cost, each once, best first, with the negative log '
  'of their probability among those given, for costs of any size. The '
  'ensemble of several systems\' lists gives the same for the lattice of the '
  'words at each position, where a word has the probability of the candidates '
  'that have it there, each system\'s normalized, of those with the length '
  'given or, without one, the most frequent. Rejoined parts are the k best '
  'joins of one candidate of each part, with their total cost, and what was '
  'not split is as it was; without a k, all lists count for its default. '
  'Outputs have their input\'s key, single spaces between words, and the '
  'order of the input. Malformed input is refused. Words are segmented by '
  'merging, repeatedly, the adjacent pieces whose union has the highest '
  'priority; a transducer for words maps all their sequences, and no others, '
  'to their pieces.',
  ['inputs'],
  'all lattices, lists, splits, numbers of systems and of best strings, costs, '
  'vocabularies and texts',
  'Tests have three lists and three words; ties, large costs, differing '
  'lengths, defaults, tools and transducers are not in them.',
  ['nisaba/translit/tools/kbest-full-string-util.cc',
   'nisaba/translit/tools/kbest-full-string-util.h',
   'nisaba/translit/tools/ensemble-full-string_main.cc',
   'nisaba/translit/tools/extract-kbest-full-string_main.cc',
   'nisaba/translit/tools/rejoin-kbest-full-string_main.cc',
   'nisaba/translit/fst/wordpiece-segmenter.cc',
   'nisaba/translit/fst/wordpiece-segmenter.h'],
  [('extractor', 'nisaba/translit/tools/kbest-full-string-util.cc '
    'KbestExtractor::GetBest'),
   ('ensemble', 'nisaba/translit/tools/kbest-full-string-util.cc '
    'EnsembleFullString'),
   ('rejoiner', 'nisaba/translit/tools/kbest-full-string-util.cc '
    'KbestRejoiner'),
   ('wordpieces', 'nisaba/translit/fst/wordpiece-segmenter.cc '
    'WordpieceSegmenter')],
  'address and undefined-behaviour sanitizers; brute-force enumeration of '
  'choices and a reference segmentation as oracles',
  'The real C++ and its tools with sanitizers on random files; every list is '
  'compared with all choices enumerated, every word with a plain '
  'implementation of the merges.')

P('P24', 'The pair LM decoder gives the right candidates, however it is run',
  'The decoder gives each word of a sentence its k best transliterations and '
  'their costs: those of the pair language model (with backoff) or transducer, '
  'of segments of covered characters joined with what is not covered, which '
  'stays or takes its external candidates; mixed with external candidates by '
  'the configured weight, or replaced by them; words without any are '
  'unchanged. With a language model, of words, wordpieces or their closure, '
  'over sentences or single words, costs are those of the posterior '
  'probability of the candidate at its position. Results do not depend on '
  'what was decoded before, on caching, on repeated words, on the number of '
  'threads and workers, or on how they interleave; nothing races. Files '
  'give the lines of each sentence, in order, without comments; blank lines '
  'give none. A sample is one candidate per word, drawn by its probability. '
  'Missing or malformed models are refused, and flags mean what they say.',
  ['inputs', 'schedules', 'histories'],
  'all models, configurations, sentences, sequences of sentences, and '
  'interleavings of words and sentences',
  'Tests have one model and a few sentences, of one thread each; history, '
  'mixing, concurrency and costs are not in them.',
  ['nisaba/translit/fst/pairlm_decoder.cc',
   'nisaba/translit/fst/pairlm_decoder.h',
   'nisaba/translit/fst/pairlm_decoder_runner.cc',
   'nisaba/translit/fst/pairlm_decoder_main.cc',
   'nisaba/translit/fst/pairlm_decoder_options.proto'],
  [('decoder', 'nisaba/translit/fst/pairlm_decoder.cc PairLMDecoder'),
   ('words', 'nisaba/translit/fst/pairlm_decoder.cc '
    'PairLMDecoder::TransliterateWord'),
   ('language model', 'nisaba/translit/fst/pairlm_decoder.cc '
    'PairLMDecoder::CollectUniqueArcCosts'),
   ('files', 'nisaba/translit/fst/pairlm_decoder_runner.cc RunPairLMDecoder')],
  'thread, address and undefined-behaviour sanitizers with injected delays; '
  'brute-force decoding as the oracle',
  'The real C++ on random models, configurations and sentences, alone, in '
  'files and in threads with delays at its mutexes, under the sanitizers; each '
  'candidate and cost is compared with an enumeration of all paths.')

P('P25', 'Tools for testing grammars pass exactly the claims that are right',
  'A text proto of tests passes exactly if its rules, as byte or UTF-8 '
  'cascades, give the listed outputs: all and no others (exact), at least '
  'these (subset), this as the best (top), or only best (one_top), or none, '
  'as a failure; unreadable archives, test data, rules, modes and token types '
  'never pass. Test data is read and written as it is, with its header, and '
  'what cannot be is an error. The Python assertions about properties, '
  'outputs, equality, functional FSTs, single best outputs and identities pass '
  'exactly if what they say holds, from as many samples as asked for. The '
  'status matchers and macros take what is OK or holds the value, return an '
  'error as it is, and evaluate an expression once, without copies.',
  ['inputs'],
  'all archives, tests, transducers, weights, statuses and values',
  'The tools are what tests are made with; only their use on grammars that '
  'are right is in the tests, so that one which always passes is not noticed.',
  ['nisaba/interim/testing/test_textproto.cc',
   'nisaba/interim/testing/testdata.cc',
   'nisaba/scripts/utils/test_util.py',
   'nisaba/scripts/natural_translit/utils/test_op.py',
   'nisaba/port/status-matchers.h', 'nisaba/port/status_macros.h'],
  [('text protos', 'nisaba/interim/testing/test_textproto.cc '
    'TextProtoTest'),
   ('test data', 'nisaba/interim/testing/testdata.cc GetRewritesTextProto, '
    'SetRewritesTextProto'),
   ('samples', 'nisaba/scripts/utils/test_util.py FstRandgenTestCase'),
   ('statuses', 'nisaba/port/status_macros.h ASSIGN_OR_RETURN')],
  'sanitizers and an oracle over runs of the tools on right and wrong claims',
  'The real C++ tools, with address and undefined-behaviour sanitizers, and '
  'the Python assertions are run on random machines with claims that are right '
  'or slightly wrong; whether each passes is compared with an enumeration of '
  'all paths.')

#MORE


def main():
  checks = []
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, technique, note in PROPS:
      assert len(p['title']) <= 80, p['title']
      for x in p['anchors']['files']:
        assert os.path.exists('/repo/' + x), x
      f.write(json.dumps(p, ensure_ascii=False) + '\n')
      if technique:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 run_check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 run_check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': technique, 'level': 'exploration',
            'level_note': note})
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 tools/setup.py',
        'checks': checks,
        'hooks': {
            'guard': 'none',
            'enable': 'No hooks are needed: monitors sit at the APIs and the '
                      'built FSTs.',
            'source_commits': []},
        'not_applicable': NOT_APPLICABLE,
        'notes': 'See DESIGN.md. Checks build what they need from /repo with '
                 'the sandbox build driver; exit 2 is inconclusive.'}, f,
              indent=1)
    f.write('\n')


main()
