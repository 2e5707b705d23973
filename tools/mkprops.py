"""Writes properties.jsonl from the table below (kept as code so that the statements are easy to edit)."""
import json, os
D = 'sudachipy/dictionarylib/'
P = 'sudachipy/plugin/'
PROPS = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=observe, hook_needed=None, **({'state': state} if state else {}))))


p('C01', 'The morphemes of an analysis partition the input text',
  'For every text and split mode, the surfaces of the returned morphemes, in order, concatenate to exactly the input text; '
  'their begin/end positions are contiguous, start at 0, end at the length of the text, and each surface is the input sliced at its begin and end. '
  'The returned list is consistent with itself: its length, iteration, positive and negative indexing and string form describe the same morphemes, and an empty text gives an empty list.',
  ['inputs', 'configurations'],
  'All texts of valid Unicode (length 0 to several thousand, any characters, including ones that normalization expands, shrinks or leaves), all three modes, all dictionaries and plugin combinations.',
  'The tests slice a handful of short strings over one small dictionary; the offset arithmetic depends on where replaced characters fall relative to word boundaries.',
  ['sudachipy/tokenizer.pyx', 'sudachipy/morphemelist.py', 'sudachipy/morpheme.py', 'sudachipy/utf8inputtext.py', 'sudachipy/utf8inputtextbuilder.py'],
  [('byte offset to original index table', 'sudachipy/utf8inputtextbuilder.py build()'), ('path is a chain of nodes from BOS to EOS', 'sudachipy/lattice.pyx get_best_path()'),
   ('spans joined or split without gaps', 'sudachipy/tokenizer.pyx _split_path(), ' + P + 'path_rewrite/path_rewrite_plugin.py')],
  ['Tokenizer.tokenize()', 'MorphemeList', 'Morpheme.surface()/begin()/end()'])

p('C02', 'The analysis is a minimum-cost path and never uses a forbidden connection',
  'Before joining and splitting rules are applied, the chosen segmentation is a sequence of candidate words (dictionary words and unknown-word candidates) from start to end of the text whose total of word costs and connection costs, including those at both ends, is the minimum over all such sequences. '
  'A pair of words whose connection cost is the inhibited value 32767 is never adjacent in the result. '
  'When an unknown-word provider that always offers a candidate is configured, an analysis fails only if every sequence contains a forbidden connection.',
  ['inputs', 'configurations'],
  'All texts, all dictionaries (word costs and ids over the signed 16-bit range), all connection matrices including inhibited cells, and all unknown-word definitions.',
  'The tests compare a few segmentations of one dictionary; optimality quantifies over all alternative paths, which only a second, independent search can enumerate.',
  ['sudachipy/lattice.pyx', 'sudachipy/latticenode.pyx', 'sudachipy/tokenizer.pyx', D + 'grammar.py'],
  [('forward Viterbi search with back pointers', 'sudachipy/lattice.pyx connect_node()'), ('candidate generation at each reachable position', 'sudachipy/tokenizer.pyx build_lattice_c()'),
   ('inhibited cost constant', D + 'grammar.py INHIBITED_CONNECTION')],
  ['Tokenizer.tokenize()', 'Morpheme.word_id()/dictionary_id()/is_oov()'])

p('C03', 'The result of an analysis does not depend on history',
  'Analysing a text gives the same morphemes with the same attributes whatever was done before: earlier analyses of any texts in any mode (including ones that raised an error), other tokenizers and other open dictionaries, requests for debug output, attributes read or not read, and the hash seed of the process. '
  'Results returned earlier stay unchanged while later analyses run.',
  ['histories', 'inputs'],
  'All sequences of create, tokenize, split, attribute reads, failing calls and opening of further dictionaries, of any length, over any texts.',
  'Each test uses a fresh tokenizer for one or two calls; buffers that grow, caches that evict after a thousand entries and state left by a failed call need longer histories.',
  ['sudachipy/tokenizer.pyx', 'sudachipy/lattice.pyx', 'sudachipy/dictionary.py', 'sudachipy/config.py', D + 'lexiconset.py', 'sudachipy/morpheme.py'],
  [('lattice cleared and resized per text', 'sudachipy/lattice.pyx clear(), resize()'), ('word information cache', D + 'lexiconset.py get_word_info()'),
   ('settings read only while a dictionary is opened', 'sudachipy/config.py, ' + P)],
  ['Dictionary()', 'Dictionary.create()', 'Tokenizer.tokenize()', 'Morpheme'],
  [dict(name='lattice', meaning='node lists by end position, reused between texts', where='sudachipy/lattice.pyx')])

p('C04', 'Split modes refine each other as the dictionary says',
  'Analysing in mode A or B gives exactly the mode C result with every word that lists two or more units for that mode replaced by those units in order, and asking a morpheme of the mode C result to split gives the same units; all other words stay as they are. '
  'When the units of the words spell the word, the boundaries of mode C are a subset of those of modes A and B, and every unit spans its own characters of the original text and carries the attributes of its own dictionary entry. '
  'The mode given to a call overrides the mode of the tokenizer, which defaults to C.',
  ['inputs', 'configurations'],
  'All texts and dictionaries with split information by id or inline reference, in system and user dictionaries, in all modes.',
  'The tests know one compound word of one dictionary.',
  ['sudachipy/tokenizer.pyx', 'sudachipy/morphemelist.py', 'sudachipy/morpheme.py', D + 'lexiconset.py'],
  [('path splitting', 'sudachipy/tokenizer.pyx _split_path()'), ('splitting on demand', 'sudachipy/morphemelist.py split()'), ('unit ids resolved to their dictionary', D + 'lexiconset.py convert_split()')],
  ['Tokenizer.tokenize(text, mode)', 'Morpheme.split(mode)'])

p('C05', 'A built dictionary returns exactly what its source says',
  'For every valid lexicon source, each entry of the built dictionary has the surface, part of speech, dictionary form, normalized form, reading, connection ids, cost, A/B units, word structure and synonym groups of its source line, with escapes decoded, references resolved to the entries they name, and entries numbered in source order. '
  'Building from several files equals building from their concatenation.',
  ['inputs', 'programs'],
  'All sources within the documented limits: any Unicode strings including supplementary characters and escapes, any lengths up to the limits of each field, any number of entries, homographs and parts of speech, any reference form.',
  'The tests build a three-line source with short strings; length-prefix boundaries, surrogate pairs, escapes, homograph counts and file offsets above small sizes are not reached.',
  [D + 'dictionarybuilder.py', D + 'wordinfolist.py', D + 'wordparameterlist.py', D + 'wordidtable.py', D + 'grammar.py', D + 'jtypedbytebuffer.py'],
  [('source line parser', D + 'dictionarybuilder.py parse_line()'), ('length-prefixed UTF-16 strings', D + 'dictionarybuilder.py write_string(), ' + D + 'wordinfolist.py'), ('word-info offset table', D + 'dictionarybuilder.py write_wordinfo()')],
  ['DictionaryBuilder.build()', 'BinaryDictionary.from_system_dictionary()', 'lexicon.get_word_info()/get_left_id()/get_right_id()/get_cost()'])

p('C06', 'Dictionary lookup finds every prefix word and only those',
  'Looking up a text at a position returns exactly the indexed entries whose headword is a prefix of the text from that position, each once, with the position where it ends; entries marked as not indexed are never returned. '
  'Looking up a word by headword, part of speech and reading returns an entry that has these attributes whenever one exists and -1 otherwise.',
  ['inputs', 'configurations'],
  'All lexicons (any headwords, prefixes of each other, many homographs, supplementary characters, bytes of any value), all texts and positions, with and without user dictionaries.',
  'The tests look up four strings in one dictionary.',
  [D + 'doublearraylexicon.py', D + 'lexiconset.py', D + 'wordidtable.py', D + 'dictionarybuilder.py'],
  [('common prefix search over a double array', D + 'doublearraylexicon.py lookup()'), ('word-id table', D + 'wordidtable.py get()'), ('user dictionaries first, then the system dictionary', D + 'lexiconset.py lookup()')],
  ['lexicon.lookup()', 'lexicon.get_word_id()', 'Dictionary.lexicon'])

p('C07', 'User dictionaries extend the system dictionary without disturbing it',
  'With up to fifteen user dictionaries attached, every word of every dictionary is found with its own attributes and with dictionary id 0 for the system and 1, 2, ... for the user dictionaries in configured order; parts of speech introduced by a user dictionary and references between its own words or to system words resolve to the right ones, and a sixteenth is refused. '
  'System words keep their attributes, ids and costs, and a text that matches no user word is analysed as without user dictionaries. '
  'A user word whose cost is left to the system gets, from analysing its surface with the dictionaries before it, the cost of the last morpheme minus that of the first, less 20 per morpheme, clipped to 16 bits.',
  ['configurations', 'inputs'],
  'All numbers of user dictionaries from 0 to 15 (and 16), with any mixture of new and known parts of speech, references, homographs across dictionaries and automatic costs.',
  'The tests attach at most one or two user dictionaries; id packing and per-dictionary offsets go wrong only from the second, eighth or later dictionary.',
  ['sudachipy/dictionary.py', D + 'lexiconset.py', D + 'userdictionarybuilder.py', D + 'grammar.py', D + 'doublearraylexicon.py', 'sudachipy/latticenode.pxd'],
  [('dictionary id in the upper bits of word ids', D + 'lexiconset.py build_word_id()'), ('part-of-speech offsets per dictionary', D + 'lexiconset.py get_word_info()'), ('automatic costs', D + 'doublearraylexicon.py calculate_cost()')],
  ['Dictionary()', 'Tokenizer.tokenize()', 'Morpheme', 'UserDictionaryBuilder.build()'])

p('C08', 'Every morpheme reports the attributes of the entry it came from',
  'For every morpheme that is neither joined nor unknown, part of speech, dictionary form, normalized form, reading, synonym groups, word id and dictionary id are those of one dictionary entry whose headword is the normalized text it covers. '
  'For every unknown word, the dictionary id is -1, it is flagged as unknown, its forms are the normalized text it covers, its reading is empty, it has no synonyms or units, and its part of speech is one configured for a category of its characters or the fallback.',
  ['inputs', 'configurations'],
  'All texts and dictionaries, every morpheme of every analysis in every mode, including more distinct words than any cache holds.',
  'The tests read the attributes of five words of one dictionary.',
  ['sudachipy/morpheme.py', 'sudachipy/morphemelist.py', 'sudachipy/latticenode.pyx', D + 'lexiconset.py', D + 'wordinfolist.py', P + 'oov/oov_provider_plugin.py'],
  [('word information by word id with cache', D + 'lexiconset.py get_word_info()'), ('unknown words carry their own word information', P + 'oov/mecab_oov_plugin.py get_oov_node()'), ('dictionary id of unknown words is -1', 'sudachipy/latticenode.pyx get_dictionary_id()')],
  ['Morpheme.part_of_speech()/dictionary_form()/normalized_form()/reading_form()/is_oov()/word_id()/dictionary_id()/synonym_group_ids()'])

p('C09', 'Positions in rewritten text map back to the right original characters',
  'After any sequence of replacements of non-empty ranges by non-empty strings, the working text is the text those edits produce; its first and last positions map to the first and last position of the original, the map never decreases, text that was not replaced maps to its own original position, and the start and end of each replacement map to the start and end of what it replaced. '
  'Byte positions, substrings, character counts and candidate starts of the built text agree with its UTF-8 encoding.',
  ['histories', 'inputs'],
  'All original texts and all sequences of edits (left to right or overlapping, shrinking, growing or equal length, at the ends), with one- to four-byte characters.',
  'The tests apply two fixed replacements to one string.',
  ['sudachipy/utf8inputtextbuilder.py', 'sudachipy/utf8inputtext.py'],
  [('index table edited with the text', 'sudachipy/utf8inputtextbuilder.py replace()'), ('byte tables', 'sudachipy/utf8inputtextbuilder.py build()')],
  ['UTF8InputTextBuilder.replace()/build()', 'UTF8InputText getters'])

p('C10', 'Input normalization follows the rewrite definition and nothing else',
  'The default input normalization replaces, from left to right, the longest listed sequence by its replacement, and otherwise lower-cases each character and, unless its lower case is on the exemption list, replaces it by its NFKC form; nothing else in the text changes. '
  'Every character of the result maps back to the original characters it came from.',
  ['inputs'],
  'All texts over all of Unicode, in particular neighbouring, overlapping and truncated listed sequences, characters whose lower case or NFKC form has several characters, and exempt characters.',
  'The tests normalize one sentence with a small definition file; the interaction of running offsets with several length-changing rewrites in one text is not covered.',
  [P + 'input_text/default_input_text_plugin.py', 'sudachipy/utf8inputtextbuilder.py', 'sudachipy/resources/rewrite.def'],
  [('rewrite with running offset', P + 'input_text/default_input_text_plugin.py rewrite()'), ('rewrite definition', 'sudachipy/resources/rewrite.def')],
  ['DefaultInputTextPlugin.set_up()/rewrite()', 'UTF8InputTextBuilder.build()'])

p('C11', 'A character has exactly the categories its definition gives it',
  'For every character definition, the categories of a code point are the union of those on all lines whose range contains it, and DEFAULT if no line does, whatever the order, overlap or adjacency of the ranges. '
  'A run of characters is continuous exactly as long as its characters have a category in common counted from its start, and a word may begin at every character except an alphabetic, Greek or Cyrillic one that shares a category with its predecessor.',
  ['configurations', 'inputs'],
  'All sets of ranges (nested, overlapping, adjacent, duplicate, single code points, up to U+10FFFF), all code points, all texts.',
  'The tests compile half a dozen fixed range sets and query a few code points.',
  [D + 'charactercategory.py', D + 'categorytype.py', 'sudachipy/utf8inputtextbuilder.py', 'sudachipy/utf8inputtext.py'],
  [('ranges compiled to a disjoint sorted list and searched by bisection', D + 'charactercategory.py _compile(), get_category_types()'), ('runs and word starts', 'sudachipy/utf8inputtextbuilder.py')],
  ['CharacterCategory.read_character_definition()/get_category_types()', 'UTF8InputText.get_char_category_types()/get_char_category_continuous_length()/can_bow()'])

p('C12', 'Unknown-word candidates are exactly those the definitions call for',
  'At a position, for each category of the character that has definitions, candidates are offered if the category is always invoked or nothing else was found: the whole run when grouping is on, and every prefix of the run of up to the given number of characters, each for each definition line of the category with its ids, cost and part of speech. '
  'The fallback provider offers one word up to the next possible word start exactly when nothing else was found, and no unknown word starts at a character marked as forbidden for it unless nothing else starts there.',
  ['configurations', 'inputs'],
  'All texts, all category definitions (invoke, group, length 0 to large), all unknown-word definitions with one or several lines per category, and both states of "other words found".',
  'The tests stub the input text and check one category with one or two definitions.',
  [P + 'oov/mecab_oov_plugin.py', P + 'oov/simple_oov_plugin.py', P + 'oov/oov_provider_plugin.py', 'sudachipy/tokenizer.pyx'],
  [('category and unknown-word definitions', P + 'oov/mecab_oov_plugin.py read_character_property(), read_oov()'), ('candidate generation', P + 'oov/mecab_oov_plugin.py provide_oov()'), ('fallback', P + 'oov/simple_oov_plugin.py provide_oov()')],
  ['provider get_oov()', 'Tokenizer.tokenize()'])

p('C13', 'Joined numerals denote the number that was written',
  'A well-formed numeral made of numeral words (digits, kanji digits and units, thousands commas, one decimal point) is joined into one word, and with normalization on its normalized form is the plain decimal notation of its value (leading zeros only as written, no trailing zeros after the point). '
  'Whatever is joined spells a well-formed numeral with that value; text that is not a well-formed numeral is never given a wrong value, and without normalization the normalized forms are concatenated. '
  'A separator that ends a numeral is left outside it. The joined word has the concatenated surfaces, dictionary forms and readings of its parts and the part of speech of the first.',
  ['inputs'],
  'All sequences of numeral and non-numeral words, numbers of any magnitude and notation, all placements of commas, points and units, normalization on and off.',
  'The tests list a few dozen numerals; carry of scales, zero filling and error recovery depend on combinations.',
  [P + 'path_rewrite/join_numeric_plugin.py', P + 'path_rewrite/numericparser.py', P + 'path_rewrite/path_rewrite_plugin.py'],
  [('incremental numeral parser', P + 'path_rewrite/numericparser.py'), ('joining with recovery at separators', P + 'path_rewrite/join_numeric_plugin.py rewrite()')],
  ['Tokenizer.tokenize()', 'NumericParser.append()/done()/get_normalized()'])

p('C14', 'Katakana unknown words are joined maximally and only them',
  'When an unknown or shorter-than-minimum word of katakana occurs, the whole neighbouring sequence of katakana words is replaced by one word, except that leading words that begin with a character forbidden at the start of unknown words stay outside; the joined word is an existing candidate for that span, the one of lowest word cost, if there is one, and otherwise an unknown word with the configured part of speech whose forms are the joined surfaces. '
  'All other words, including sufficiently long known katakana words with no such neighbour, are left alone.',
  ['inputs', 'configurations'],
  'All texts, dictionaries with katakana words of any lengths, minimum lengths from 0 up, with characters forbidden at word start.',
  'The tests try half a dozen texts.',
  [P + 'path_rewrite/join_katakana_oov_plugin.py', P + 'path_rewrite/path_rewrite_plugin.py', 'sudachipy/lattice.pyx'],
  [('expansion to both sides', P + 'path_rewrite/join_katakana_oov_plugin.py rewrite()'), ('reuse of the cheapest node', P + 'path_rewrite/path_rewrite_plugin.py concatenate_oov(), sudachipy/lattice.pyx get_minimum_node()')],
  ['Tokenizer.tokenize()'])

p('C15', 'The binary dictionary format is the published one, in both directions',
  'Every dictionary that is built can be decoded by an independent reader of the published layout with nothing lost, and every well-formed file of any published version (system 1-2, user 1-3, with or without grammar or synonym groups) written by an independent writer is read back exactly. '
  'A file of another version is refused, as is a system dictionary given as user dictionary and the reverse, and header version, creation time and description survive.',
  ['inputs', 'programs'],
  'All dictionary contents, all five versions, all header values, descriptions up to the limit in bytes.',
  'The tests read dictionaries that the same code wrote, so a change to reader and writer together, or a loss of compatibility with older files, passes.',
  [D + 'binarydictionary.py', D + 'dictionaryheader.py', D + 'dictionaryversion.py', D + 'wordinfolist.py', D + 'wordidtable.py', D + 'grammar.py', D + 'dictionarybuilder.py'],
  [('version constants and predicates', D + 'dictionaryversion.py'), ('header', D + 'dictionaryheader.py'), ('section layout', D + 'binarydictionary.py _read_dictionary()')],
  ['BinaryDictionary', 'DictionaryHeader', 'files on disk'])

p('C16', 'Connection costs are those of the matrix definition',
  'For every matrix definition, square or not, complete or sparse, the cost of connecting a left word to a right word is the one listed for that pair (the last one if it is listed several times) and 0 where none is listed, in the grammar and in the analysis alike. '
  'Changing or inhibiting listed pairs changes exactly those pairs.',
  ['inputs', 'configurations'],
  'All matrix sizes and cell sets, all values in the 16-bit range, comments and blank lines, all sets of edited pairs.',
  'The tests use one complete square matrix.',
  [D + 'grammar.py', D + 'dictionarybuilder.py', P + 'connect_cost/editconnectioncost.py', P + 'connect_cost/inhibitconnectioncost.py', 'sudachipy/lattice.pyx'],
  [('matrix layout left + left_size * right', D + 'dictionarybuilder.py convert_matrix(), ' + D + 'grammar.py'), ('edit plugin', P + 'connect_cost/inhibitconnectioncost.py')],
  ['Grammar.get_connect_cost()/set_connect_cost()', 'InhibitConnectionPlugin', 'Tokenizer.tokenize()'])

p('C17', 'The command line prints exactly what the library returns',
  'For every input, mode and source of lines (standard input or files), the output has one tab-separated line per morpheme with surface, part of speech and normalized form (with -a also dictionary form, reading, dictionary id, synonym groups and the unknown mark) and an EOS line per input line (line ends, CRLF in files included, are not part of the text), in order, equal to what the library returns for that line; -d only adds debug lines. '
  '-o writes the same bytes to the file instead of standard output, and the build and ubuild commands produce the same dictionaries as the builder classes, with the given description.',
  ['inputs', 'configurations'],
  'All texts that fit on lines including empty lines and a missing final newline, several input files, all option combinations.',
  'The tests do not run the command line at all.',
  ['sudachipy/command_line.py'],
  [('output loop', 'sudachipy/command_line.py run()'), ('commands', 'sudachipy/command_line.py _command_tokenize(), _command_build(), _command_user_build()')],
  ['python -m sudachipy.command_line'])

p('C18', 'Configuration selects exactly the named resources',
  'The system dictionary, character definition, unknown-word definitions and user dictionaries in use are the files named by the configuration, relative names being resolved against the given resource directory or else the directory of the configuration file and absolute ones taken as they are; a dictionary type argument selects that installed dictionary package whatever the file says, and with no system dictionary named the core package is used. '
  'An unknown type, missing package, unknown plugin class or missing unknown-word provider is reported as an error. '
  'Open dictionaries keep their own configuration when others are opened.',
  ['configurations', 'histories'],
  'All combinations of configuration path, resource directory, relative and absolute names, dictionary types and installed packages, plugin lists, and orders of opening.',
  'The tests cover a few switches with mocked packages.',
  ['sudachipy/config.py', 'sudachipy/dictionary.py', P + 'oov/utils.py', P + 'input_text/utils.py', P + 'path_rewrite/utils.py'],
  [('settings', 'sudachipy/config.py set_up()'), ('plugin factories', P + '*/utils.py')],
  ['Dictionary(config_path, resource_dir, dict_type)'])

p('C19', 'Sources that cannot be represented are refused, never corrupted silently',
  'A lexicon, matrix or definition source that breaks a documented rule (too few columns, empty headword, null character in an indexed headword, over-long string, too many units, number outside its 16-bit field, unresolvable or out-of-range reference, units on an A-mode word, unknown category, reversed range, cell outside the matrix) makes the build or the opening fail with an error. '
  'Any source that is accepted yields a dictionary in which every other entry still reads back correctly.',
  ['inputs'],
  'All single faults of each kind placed at any entry of any otherwise valid source, exactly at and one beyond each limit.',
  'The tests try a few malformed lines in isolation and do not look at what is written when a fault is accepted.',
  [D + 'dictionarybuilder.py', D + 'userdictionarybuilder.py', D + 'jtypedbytebuffer.py', D + 'charactercategory.py', P + 'oov/mecab_oov_plugin.py', P + 'input_text/default_input_text_plugin.py'],
  [('line checks', D + 'dictionarybuilder.py parse_line()'), ('reference checks', D + 'dictionarybuilder.py parse_splitinfo(), check_wordid()'), ('range-checked integer output', D + 'jtypedbytebuffer.py write_int()')],
  ['DictionaryBuilder.build()', 'UserDictionaryBuilder.build()', 'Dictionary()'])

p('C20', 'Every valid text is analysed under the shipped configuration',
  'With the character, unknown-word, rewrite and plugin definitions that ship with the package, every text of valid Unicode is analysed without an error in every mode, and all attributes of every morpheme can be read. '
  'This holds for any dictionary whose matrix covers the ids and forbids no connection and whose parts of speech include those the shipped definitions name, including one with no matching word at all.',
  ['inputs'],
  'All texts over all assigned and unassigned code points except lone surrogates, with control characters, NUL, combining marks, supplementary characters, and long texts.',
  'The tests use ordinary Japanese text; category changes at arbitrary code points, normalization to several characters and rewriting at boundaries are not covered.',
  ['sudachipy/tokenizer.pyx', 'sudachipy/utf8inputtext.py', 'sudachipy/utf8inputtextbuilder.py', P + 'oov/simple_oov_plugin.py', 'sudachipy/resources/char.def', 'sudachipy/resources/unk.def', 'sudachipy/resources/sudachi.json'],
  [('fallback provider at every reachable position', 'sudachipy/tokenizer.pyx build_lattice_c()'), ('shipped definitions', 'sudachipy/resources/')],
  ['Tokenizer.tokenize()', 'Morpheme'])

p('C21', 'Using a dictionary never changes it and building one is reproducible',
  'Opening, analysing with, inspecting and closing dictionaries leaves every dictionary and definition file byte for byte as it was, also when user word costs are computed on opening, and closing succeeds while results are still in use. '
  'Building from the same sources gives the same bytes every time apart from the creation time in the header, whatever was built before in the same process and whatever the hash seed.',
  ['histories', 'inputs'],
  'All dictionaries with automatic costs, all sequences of opening, analysing, closing, and all repeated builds.',
  'The tests never look at the files again after use, nor build twice.',
  ['sudachipy/dictionary.py', D + 'binarydictionary.py', D + 'dictionarybuilder.py', D + 'doublearraylexicon.py'],
  [('system dictionary mapped read-only, user dictionaries copy-on-write', D + 'binarydictionary.py'), ('sorted key table', D + 'dictionarybuilder.py')],
  ['files on disk', 'DictionaryBuilder.build()'])

p('C22', 'Prolonged sound marks are collapsed and nothing else',
  'With prolonged-sound-mark normalization configured, every maximal run of two or more configured marks becomes one replacement symbol (of one character), a single mark stays as it is, and all other text is unchanged. '
  'The collapsed symbol maps back to the whole run in the original text.',
  ['inputs', 'configurations'],
  'All texts, all sets of marks (including supplementary characters) and replacement symbols, several runs per text, runs at both ends.',
  'The tests collapse a handful of fixed strings.',
  [P + 'input_text/prolongedsoundmark.py', 'sudachipy/utf8inputtextbuilder.py'],
  [('run detection with running offset', P + 'input_text/prolongedsoundmark.py rewrite()')],
  ['ProlongedSoundMarkInputTextPlugin.rewrite()', 'UTF8InputTextBuilder.build()', 'Morpheme.surface()'])

p('C23', 'Plugins act in the configured order, each on what the previous ones left',
  'The input-text plugins of a configuration rewrite the text one after another in the listed order, the unknown-word providers are asked in the listed order and told whether anything was found before them, '
  'and the path-rewriting plugins change the path one after another in the listed order; a plugin may be listed several times with different settings and each listing acts with its own. '
  'The returned morphemes are those of the path after the last plugin, and costs computed for user words use the input-text and unknown-word plugins but no path-rewriting ones.',
  ['configurations', 'inputs'],
  'All lists of input-text, unknown-word and path-rewriting plugins with any settings, repeats included, over texts on which the plugins interact.',
  'The tests run each plugin alone or the one shipped list.',
  ['sudachipy/tokenizer.pyx', 'sudachipy/dictionary.py', P + 'input_text/utils.py', P + 'oov/utils.py', P + 'path_rewrite/utils.py'],
  [('plugin loops', 'sudachipy/tokenizer.pyx tokenize(), build_lattice_c()'), ('plugin factories', P + '*/utils.py'), ('computed costs', 'sudachipy/dictionary.py _read_user_dictionary()')],
  ['Tokenizer.tokenize()', 'Dictionary.input_text_plugins/oov_provider_plugins/path_rewrite_plugins'])

p('C24', 'The debug output describes the analysis',
  'The debug output of an analysis shows the text after normalization, every candidate word with its byte span, surface, word id, part of speech, connection ids, word cost and the costs of connecting it to the words that end where it begins, '
  'the path before joining and splitting (whose cost is the minimum) and the words that are returned. Asking for it does not change the result.',
  ['inputs', 'configurations'],
  'All texts, dictionaries, matrices (also non-square ones), unknown-word definitions and modes.',
  'No test looks at the debug output.',
  ['sudachipy/lattice.pyx', 'sudachipy/tokenizer.pyx', 'sudachipy/latticenode.pyx'],
  [('lattice dump', 'sudachipy/lattice.pyx dump()'), ('path dump', 'sudachipy/tokenizer.pyx _dump_path()')],
  ['Tokenizer.tokenize(text, mode, logger)', 'sudachipy -d'])

p('C25', 'Tokenizers of one dictionary can work in several threads at once',
  'Tokenizers made from one dictionary, each used by one thread, return the same morphemes with the same attributes and units and the same lookups, '
  'as when the same calls are made one after the other in a fresh dictionary, whatever the order in which the threads take turns.',
  ['schedules', 'inputs', 'configurations'],
  'All schedules of two and more threads that analyse, read and split results and look words up, over all dictionaries, texts, modes and plugins.',
  'The tests use one thread; which results are wrong depends on where the threads change over.',
  ['sudachipy/dictionary.py', 'sudachipy/tokenizer.pyx', D + 'wordinfolist.py', D + 'lexiconset.py', D + 'doublearraylexicon.py', P + 'path_rewrite/join_numeric_plugin.py', P + 'input_text/default_input_text_plugin.py'],
  [('a lattice for each tokenizer', 'sudachipy/tokenizer.pyx Tokenizer.__init__()'), ('position in the mapped file restored under a lock', D + 'wordinfolist.py get_word_info()'),
   ('plugins without state of an analysis', P), ('cache of word information', D + 'lexiconset.py get_word_info()')],
  ['Dictionary.create()', 'Tokenizer.tokenize()', 'Morpheme', 'LexiconSet.lookup()'])

p('C26', 'Repeated use accumulates neither memory nor open files',
  'Analysing texts (in any mode, with debug output, splitting, looking up, or failing), making tokenizers, opening and closing dictionaries and building them can be repeated without end: what is no longer in use is released, '
  'apart from caches of bounded size and working space in proportion to the longest text. A dictionary that was closed or dropped, or could not be opened, leaves none of its files open or mapped once its results are gone.',
  ['histories', 'inputs', 'faults'],
  'All histories of analyses, openings, failures and builds, of any length, over all dictionaries and configurations.',
  'A test does a thing once; accumulation shows only in what remains after many times.',
  [D + 'lexiconset.py', D + 'binarydictionary.py', 'sudachipy/dictionary.py', 'sudachipy/lattice.pyx', 'sudachipy/tokenizer.pyx', 'sudachipy/morphemelist.py'],
  [('cache of word information, one for each set of lexicons', D + 'lexiconset.py get_word_info()'), ('lattice cleared after each analysis and grown by what is missing', 'sudachipy/lattice.pyx'),
   ('mapping closed with the dictionary', D + 'binarydictionary.py close()')],
  ['Dictionary', 'Dictionary.close()', 'Tokenizer.tokenize()', 'DictionaryBuilder.build()'])

p('C27', 'Results do not depend on the environment of the process',
  'Building dictionaries, opening configurations, analysing, and the tokenize command writing to a file give the same dictionaries, results and refusals whatever the locale and its preferred encoding (all text files are UTF-8), '
  'the working directory and the files in it (for paths that are not relative to it), the optimization level of the interpreter (python -O), the hash seed, the time zone, the umask, and whether the process may write the files it only reads. '
  'Standard input and output use the encoding of the environment.',
  ['configurations', 'inputs', 'faults'],
  'All environments of a process, over all source files (comments and names in any script, faults in them), configurations, texts and modes.',
  'The tests run in the one environment of the developer.',
  ['sudachipy/command_line.py', 'sudachipy/config.py', 'sudachipy/dictionary.py', D + 'dictionarybuilder.py', D + 'userdictionarybuilder.py', D + 'charactercategory.py', P + 'oov/mecab_oov_plugin.py', P + 'input_text/default_input_text_plugin.py'],
  [('text files opened as UTF-8', 'sudachipy/command_line.py, sudachipy/config.py, sudachipy/dictionarylib/*.py, sudachipy/plugin/*'), ('paths relative to the resource directory', 'sudachipy/config.py'),
   ('refusals that are no assertions', D + 'dictionarybuilder.py')],
  ['sudachipy build', 'sudachipy ubuild', 'sudachipy tokenize', 'Dictionary', 'Tokenizer.tokenize()'])

p('C28', 'An unfinished dictionary never passes for a complete one',
  'A build or ubuild command that fails or is interrupted at any point (a fault in its sources, a write that fails, a full disk, an interrupt, the end of its process) does not end successfully, and what it leaves at the output path is refused when opened, '
  'unless it is what was there before or the whole dictionary. A dictionary file that was cut off at any point is refused when opened, or fails when what is missing is read; '
  'whatever can still be read is what the complete dictionary says.',
  ['crash points', 'faults', 'inputs'],
  'All points of failure in writing all dictionaries, system and user, over anything at the output path; all lengths a file can be cut off at.',
  'The tests build and read complete dictionaries only.',
  ['sudachipy/command_line.py', D + 'dictionarybuilder.py', D + 'userdictionarybuilder.py', D + 'binarydictionary.py', D + 'doublearraylexicon.py', D + 'wordinfolist.py'],
  [('header written last', 'sudachipy/command_line.py _command_build(), _command_user_build()'), ('completeness checked', D + 'doublearraylexicon.py __init__()'), ('strict reads', D + 'wordinfolist.py')],
  ['sudachipy build', 'sudachipy ubuild', 'Dictionary', 'BinaryDictionary'])

p('C29', 'The tokenize command answers each line before it reads on',
  'The tokenize command works as a filter: once a line has arrived in full, on standard input or in an input file that is still being written (a named pipe), its whole answer can be read from standard output or from the output file (-o), '
  'without any more input and before the input ends, however the input arrives in pieces. In the end the output is that for the same lines given at once; a line whose analysis fails comes after the answers to all lines before it.',
  ['schedules', 'inputs', 'histories'],
  'All ways in which input can arrive, line by line or in groups and cut anywhere, over all options, dictionaries and texts.',
  'The tests call the printing function with a list of lines.',
  ['sudachipy/command_line.py'],
  [('one line at a time, output flushed', 'sudachipy/command_line.py run(), _command_tokenize()')],
  ['sudachipy tokenize'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w', encoding='utf-8') as f:
        for q in PROPS:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q, ensure_ascii=False) + '\n')
    print(len(PROPS))
