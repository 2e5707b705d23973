From 93f96f366d3ac9f81cb3d96052a99a6f7a5230a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/33] fix: drop the lattice nodes left by a failed
 tokenization

When tokenize() raised, the nodes inserted so far stayed in the lattice of the
tokenizer and took part in the analysis of the next text.
---
 sudachipy/tokenizer.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..9ee777c 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -33,6 +33,7 @@ cdef void build_lattice_c(object tokenizer, object input_):
     bytes_ = input_.get_byte_text()
 
     cdef Lattice lattice = tokenizer._lattice
+    lattice.clear()  # a previous call that failed may have left its nodes
     lattice.resize(len(bytes_))
 
     cdef unsigned int i, word_id, end, idx
-- 
2.43.0


From a63c982201d3a560214ea66adc95f2749409ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 02/33] fix: hold word ids unsigned so that dictionaries 8 to
 15 are usable

A word id carries the dictionary id in its top four bits; with eight or more
user dictionaries it did not fit the signed field and tokenize() raised
OverflowError.
---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From 91c844d84e18cd12180d7253c85f25ddeeb722ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/33] fix: return existing words from LexiconSet.get_word_id

The test was inverted: a word that was found (id > 0) was skipped and a missing
one ended the search.
---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From 27dae3cc361f48592563c1a2adc694d3eeb250ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 04/33] fix: read non-square connection matrices with the
 layout they are written in

The cell (left, right) is stored at left + left_size * right, so the row length
of the view is the left size. Square matrices are unaffected.
---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..1ffd0cc 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From e2968c101d10f7ead0d7500d88981b2530ce5047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 05/33] fix: write the whole connection matrix when matrix.def
 leaves cells out

Only the bytes up to the last listed cell were written, so everything behind
the matrix was read from the wrong place.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..134d4e8 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
-- 
2.43.0


From 4d36b030cfcb3cf83bd0d00e1b4f1b3da7691e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/33] fix: decode Unicode escapes in braces of any length

Only four and five digit escapes were decoded; shorter and six digit ones
raised an error or gave another character.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 134d4e8..a238fe7 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -305,11 +305,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From f01ccf6d7508cc2e60121048d191277d210a01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 07/33] fix: check the length of strings in the unit they are
 stored in

The limit was applied to code points while the stored length counts UTF-16
units, so long strings with supplementary characters were silently cut.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index a238fe7..94fc093 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -146,9 +146,9 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and len(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[12]) <= self.__STRING_MAX_LENGTH
+            and self.__utf16_length(cols[4]) <= self.__STRING_MAX_LENGTH \
+            and self.__utf16_length(cols[11]) <= self.__STRING_MAX_LENGTH \
+            and self.__utf16_length(cols[12]) <= self.__STRING_MAX_LENGTH
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
@@ -375,15 +375,13 @@ class DictionaryBuilder(object):
         return [int(synonym_group_id) for synonym_group_id in synonym_group_ids]
 
     def write_string(self, text):
-        len_ = 0
-        for c in text:
-            if 0x10000 <= ord(c) <= 0x10FFFF:
-                len_ += 2
-            else:
-                len_ += 1
-        self.write_stringlength(len_)
+        self.write_stringlength(self.__utf16_length(text))
         self.byte_buffer.write_str(text)
 
+    @staticmethod
+    def __utf16_length(text):
+        return len(text.encode('utf-16-le')) // 2
+
     def write_stringlength(self, len_):
         if len_ <= self.__BYTE_MAX_VALUE:
             self.byte_buffer.write_int(len_, 'byte')
-- 
2.43.0


From 94b04b0b11f730466ff9af37e5c249e512d6ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 08/33] fix: read part-of-speech names the way they are written

Names of 128 or more UTF-16 units have a two-byte length, and a leading U+FEFF
is part of the name.
---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 1ffd0cc..9297eb8 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length >= 128:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From 41da13eb2d0c9e7b00ed7e5157da9f74b8d07b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 09/33] fix: offer every OOV candidate up to the length given
 in char.def

The length limit shrank once per entry of unk.def instead of once for the
grouped candidate, so categories with several entries lost candidates.
---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..9421977 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -77,7 +77,7 @@ class MeCabOovPlugin(OovProviderPlugin):
                 s = input_text.get_substring(offset, offset + length)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
-                    llength -= 1
+                llength -= 1
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
                 if sublength > llength:
-- 
2.43.0


From d935384b75110f812c5eaa0f530d25897b49132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 10/33] fix: consult the categories of a character in a fixed
 order

The order of a set of Enum members follows the hash seed of the process, so
equal-cost OOV candidates were chosen differently from run to run.
---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 9421977..c194c03 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -63,7 +63,7 @@ class MeCabOovPlugin(OovProviderPlugin):
         if length < 1:
             return []
         nodes = []
-        for type_ in input_text.get_char_category_types(offset):
+        for type_ in sorted(input_text.get_char_category_types(offset), key=lambda t: t.value):
             if type_ not in self.categories:
                 continue
             cinfo = self.categories[type_]
-- 
2.43.0


From b7d7ba2f03c8a00a7225e4b8c3b5e1ff9d03bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:11 +0000
Subject: [PATCH 11/33] fix: decode escapes in inline word references after
 taking them apart

A reference to a word whose headword or reading contains an escaped slash or
comma was cut at the decoded character and not found.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 94fc093..4ad8fd6 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -105,7 +105,8 @@ class DictionaryBuilder(object):
     def parse_line(self, cols):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
-        cols = [self.decode(col) for col in cols]
+        # the inline word references of the split columns are decoded after they are taken apart
+        cols = [self.decode(col) for col in cols[:15]] + cols[15:]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
@@ -347,7 +348,7 @@ class DictionaryBuilder(object):
         if len(cols) < 8:
             raise ValueError('too few columns')
         headword = self.decode(cols[0])
-        pos_id = self.get_posid([cols[i] for i in range(1, 7)])
+        pos_id = self.get_posid([self.decode(cols[i]) for i in range(1, 7)])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
         reading = self.decode(cols[7])
-- 
2.43.0


From 8899a7085d5ea8248ed473e0f950ca9a0d4b9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 12/33] fix: do not retry a numeral for ever over a separator
 inside a word
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A numeral word whose normalized form contains a comma or point that does not
fit (the entry 一千 normalized to 1,000, twice in a row) sent the scan back to
the start of the numeral each time, although the separator stays a part of the
word; tokenize() never returned. Going back is tried once per separator kind.
---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..861440f 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -59,10 +59,10 @@ class JoinNumericPlugin(PathRewritePlugin):
                 for c in s:
                     if not parser.append(c):
                         if begin_index >= 0:
-                            if parser.error_state == NumericParser.Error.COMMA:
+                            if parser.error_state == NumericParser.Error.COMMA and comma_as_digit:
                                 comma_as_digit = False
                                 i = begin_index - 1
-                            elif parser.error_state == NumericParser.Error.POINT:
+                            elif parser.error_state == NumericParser.Error.POINT and period_as_digit:
                                 period_as_digit = False
                                 i = begin_index - 1
                             begin_index = -1
-- 
2.43.0


From 0f4ffe032df63d31e30baa2d9fd1525f25c1f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 13/33] fix: let Dictionary.close() succeed while results are
 still in use

The word information cache alone keeps the mapping referenced, so close() raised
BufferError after any analysis whose attributes had been read and left the
remaining dictionaries open.
---
 sudachipy/dictionarylib/binarydictionary.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/binarydictionary.py b/sudachipy/dictionarylib/binarydictionary.py
index 30ff868..f257bcd 100644
--- a/sudachipy/dictionarylib/binarydictionary.py
+++ b/sudachipy/dictionarylib/binarydictionary.py
@@ -62,7 +62,11 @@ class BinaryDictionary(object):
     def close(self):
         del self._grammar
         del self._lexicon
-        self._bytes.close()
+        try:
+            self._bytes.close()
+        except BufferError:
+            # results, tokenizers or cached word information still use the mapping; it ends with the last of them
+            pass
 
     @property
     def grammar(self) -> Grammar:
-- 
2.43.0


From 30c1a1f54cfd630b642cd7c170cfd67801b59967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 14/33] fix: keep the parts of a part of speech apart when they
 contain commas

A comma in one part (written as a quoted column or an escape) shifted the whole
table that follows it in the dictionary.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 4ad8fd6..8ec466c 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -158,7 +158,7 @@ class DictionaryBuilder(object):
         self.trie_keys[key].append(word_id)
 
     def get_posid(self, strs):
-        return self.pos_table.get_id(','.join(strs))
+        return self.pos_table.get_id(list(strs))
 
     def write_grammar(self, matrix_input_stream, output_stream):
         self.logger.info('writing the POS table...')
@@ -187,7 +187,8 @@ class DictionaryBuilder(object):
     def convert_postable(self, pos_list):
         self.byte_buffer.write_int(len(pos_list), 'short')
         for pos in pos_list:
-            for text in pos.split(','):
+            # a list of the parts, or the parts joined by commas
+            for text in pos.split(',') if isinstance(pos, str) else pos:
                 self.write_string(text)
 
     def convert_matrix(self, matrix_input):
-- 
2.43.0


From 69c3c95f9cf4521a0a5dac49239ac368810aaa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 15/33] fix: refuse headwords the trie cannot hold

A null character in a headword silently made its first part match with a wrong
word-ID.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 8ec466c..abd57da 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -115,6 +115,9 @@ class DictionaryBuilder(object):
         entry = self.WordEntry()
         # head word for trie
         if cols[1] != '-1':
+            if '\0' in cols[0]:
+                # the trie would index the part before it as another word
+                raise ValueError('headword contains a null character')
             entry.headword = cols[0]
         # left-id, right-id, connect_cost
         entry.parameters = [int(cols[i]) for i in [1, 2, 3]]
-- 
2.43.0


From df4e9355fa267722c0ac84ab79d45e2f43c648e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 16/33] fix: read the dictionary form without following the
 references of its entry

Entries that are each other's dictionary form, and long chains of them, could not
be read at all.
---
 sudachipy/dictionarylib/wordinfolist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index 6a62ebb..bfa7efe 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -48,8 +48,8 @@ class WordInfoList(object):
 
         dictionary_form = surface
         if dictionary_form_word_id >= 0 and dictionary_form_word_id != word_id:
-            wi = self.get_word_info(dictionary_form_word_id)
-            dictionary_form = wi.surface
+            self.bytes.seek(self.word_id_to_offset(dictionary_form_word_id))
+            dictionary_form = self.buffer_to_string()
 
         self.bytes.seek(orig_pos)
 
-- 
2.43.0


From 453fe1e7678af9d18f6bc386a1031d0a701025a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:16 +0000
Subject: [PATCH 17/33] fix: refuse dictionary forms that refer to no entry

All other references were checked; this one was written as it came and broke
the reading of the entry.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index abd57da..e315890 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -280,6 +280,8 @@ class DictionaryBuilder(object):
         base = io_out.tell()
         for entry in self.entries:
             wi = entry.wordinfo
+            if not -1 <= wi.dictionary_form_word_id < len(self.entries):
+                raise ValueError('invalid dictionary form word ID')
             offsets.write_int(io_out.tell(), 'int')
             self.write_string(wi.surface)
             self.write_stringlength(wi.length())
-- 
2.43.0


From 7cec6ef86448a2141650965177dfa3e4d2ed8062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 18/33] fix: refuse cells outside the connection matrix

They overwrote other cells or displaced what follows the matrix.
---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index e315890..7f881f4 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -200,6 +200,8 @@ class DictionaryBuilder(object):
             raise ValueError('invalid format at line 0')
         lr = header.split()
         lsize, rsize = [int(x) for x in lr]
+        if lsize < 0 or rsize < 0:
+            raise ValueError('invalid format at line 0')
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
@@ -214,6 +216,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection ID at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
-- 
2.43.0


From 0f7fe9c10d5145422ed97582a936096e24a18e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 19/33] fix: look for words with a part of speech of the second
 and later user dictionaries

Their entries hold the id as if theirs were the only user dictionary, as
get_word_info() already takes into account.
---
 sudachipy/dictionarylib/lexiconset.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 1a8bac4..a9b54c5 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -79,7 +79,12 @@ class LexiconSet(Lexicon):
 
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
-            wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
+            own_pos_id = pos_id
+            if dic_id > 0 and pos_id >= self.pos_offsets[1]:  # user defined part-of-speech
+                own_pos_id = pos_id - self.pos_offsets[dic_id] + self.pos_offsets[1]
+                if own_pos_id < self.pos_offsets[1]:  # of a dictionary before this one
+                    continue
+            wid = self.lexicons[dic_id].get_word_id(headword, own_pos_id, reading_form)
             if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
-- 
2.43.0


From 99d4ed99b64a96fd6472de95d47ee0290fcf9827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:09 +0000
Subject: [PATCH 20/33] fix: do not join numerals with an incomplete group
 before a unit or with commas after the point

---
 sudachipy/plugin/path_rewrite/numericparser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index f48daf1..ae5ff7f 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -219,6 +219,14 @@ class NumericParser(object):
             return False
 
         num = self._char_to_num[char]
+        if num < 0:
+            # a unit does not end a group of digits that a separator has left open
+            if self._has_hanging_point:
+                self._error_state = self.Error.POINT
+                return False
+            if self._has_comma and not self.check_comma():
+                self._error_state = self.Error.COMMA
+                return False
         if self.is_small_unit(num):
             self._tmp.shift_scale(-num)
             if not self._sub_total.add(self._tmp):
@@ -260,7 +268,7 @@ class NumericParser(object):
         return str(self._total)
 
     def check_comma(self) -> bool:
-        if self._is_first_digit:
+        if self._is_first_digit or self._tmp.point >= 0:
             return False
         if not self._has_comma:
             return self._digit_length <= 3 and not self._tmp.is_zero() and not self._tmp.is_all_zero
-- 
2.43.0


From 5d33b062581aab65a96fd9f958af71bcb2412f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 21/33] fix: do not join an ill-formed numeral because a
 separator follows it

---
 sudachipy/plugin/path_rewrite/numericparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/numericparser.py b/sudachipy/plugin/path_rewrite/numericparser.py
index ae5ff7f..675d557 100644
--- a/sudachipy/plugin/path_rewrite/numericparser.py
+++ b/sudachipy/plugin/path_rewrite/numericparser.py
@@ -255,14 +255,16 @@ class NumericParser(object):
         return True
 
     def done(self) -> bool:
-        ret = self._sub_total.add(self._tmp) and self._total.add(self._sub_total)
+        if not (self._sub_total.add(self._tmp) and self._total.add(self._sub_total)):
+            self._error_state = self.Error.OTHER
+            return False
         if self._has_hanging_point:
             self._error_state = self.Error.POINT
             return False
         if self._has_comma and self._digit_length != 3:
             self._error_state = self.Error.COMMA
             return False
-        return ret
+        return True
 
     def get_normalized(self) -> str:
         return str(self._total)
-- 
2.43.0


From 68eaa804b3cc3040e4ebd7850699ed1ae37fbdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:09 +0000
Subject: [PATCH 22/33] fix: refuse category settings for names that are
 attributes of CategoryType but not categories

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index c194c03..f946a77 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -105,9 +105,8 @@ class MeCabOovPlugin(OovProviderPlugin):
                 cols = line.split()
                 if len(cols) < 4:
                     raise ValueError("invalid format at line {}".format(i))
-                try:
-                    type_ = getattr(categorytype.CategoryType, cols[0])
-                except AttributeError:
+                type_ = categorytype.CategoryType.get(cols[0])
+                if type_ is None:
                     raise ValueError("`{}` is invalid type at line {}".format(cols[0], i))
                 if type_ in self.categories:
                     raise ValueError("`{}` is already defined at line {}".format(cols[0], i))
@@ -128,9 +127,8 @@ class MeCabOovPlugin(OovProviderPlugin):
                 cols = line.split(",")
                 if len(cols) < 10:
                     raise ValueError("invalid format at line {}".format(i))
-                try:
-                    type_ = getattr(categorytype.CategoryType, cols[0])
-                except AttributeError:
+                type_ = categorytype.CategoryType.get(cols[0])
+                if type_ is None:
                     raise ValueError("`{}` is invalid type at line {}".format(cols[0], i))
                 if type_ not in self.categories:
                     raise ValueError("`{}` is undefined at line {}".format(cols[0], i))
-- 
2.43.0


From 9e56fa17628b998c718bb52549aabcb50c3a0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:00 +0000
Subject: [PATCH 23/33] fix: refuse parts of a part of speech that are too long
 to be stored

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 7f881f4..a531289 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -150,9 +150,7 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and self.__utf16_length(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and self.__utf16_length(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and self.__utf16_length(cols[12]) <= self.__STRING_MAX_LENGTH
+            and all(self.__utf16_length(col) <= self.__STRING_MAX_LENGTH for col in cols[4:13])
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
-- 
2.43.0


From 6b00c0b18ff0629dec29ac066a00d85dd1e91bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:47 +0000
Subject: [PATCH 24/33] fix: refuse word references whose number reaches into
 the bits of the dictionary id

---
 sudachipy/dictionarylib/dictionarybuilder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index a531289..0564696 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -342,12 +342,12 @@ class DictionaryBuilder(object):
         return re.match(r'U?\d+$', text)
 
     def parse_id(self, text):
-        if text.startswith('U'):
-            id_ = int(text[1:])
-            if self.is_user_dictionary:
-                id_ |= (1 << 28)
-        else:
-            id_ = int(text)
+        id_ = int(text[1:] if text.startswith('U') else text)
+        if id_ >= (1 << 28):
+            # would be taken for another entry, of another dictionary
+            raise ValueError('invalid word ID')
+        if text.startswith('U') and self.is_user_dictionary:
+            id_ |= (1 << 28)
         self.check_wordid(id_)
         return id_
 
-- 
2.43.0


From 7304ffdaea50d93312184dc7ce1d143d795c5b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 25/33] fix: totals of path costs beyond 31 bits wrapped around
 in long texts

---
 sudachipy/lattice.pxd     | 2 +-
 sudachipy/lattice.pyx     | 2 +-
 sudachipy/latticenode.pxd | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sudachipy/lattice.pxd b/sudachipy/lattice.pxd
index ec2ce35..713fd5d 100644
--- a/sudachipy/lattice.pxd
+++ b/sudachipy/lattice.pxd
@@ -1,7 +1,7 @@
 from .latticenode cimport LatticeNode
 
 cdef extern from "limits.h":
-    cdef int INT_MAX
+    cdef long long LLONG_MAX
 
 cdef class Lattice:
 
diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..b702846 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -87,7 +87,7 @@ cdef class Lattice:
 
     cdef void connect_node(self, LatticeNode r_node):
         begin = r_node.begin
-        r_node.total_cost = INT_MAX
+        r_node.total_cost = LLONG_MAX
 
         cdef LatticeNode l_node
         cdef int connect_cost
diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index 8d2f5ca..c82e69f 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -2,7 +2,7 @@ cdef class LatticeNode:
 
     cdef int begin
     cdef int end
-    cdef int total_cost
+    cdef long long total_cost
     cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
-- 
2.43.0


From 7a8b49d01685c51a6546b119cebacb918bf0c226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 26/33] fix: freeing the lattice of a very long text overflowed
 the stack

---
 sudachipy/lattice.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index b702846..4dd9a53 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -43,10 +43,11 @@ cdef class Lattice:
         self.eos_node.begin = self.eos_node.end = size
 
     def clear(self) -> None:
-        for i in range(1, self.size + 1):
+        # from the end: a node holds the one before it, and freeing a long chain at once would recurse too deeply
+        self.eos_node = None
+        for i in range(self.size, 0, -1):
             self.end_lists[i].clear()
         self.size = 0
-        self.eos_node = None
 
     def expand(self, new_size: int) -> None:
         expand_list = [[] for _ in range(self.size, new_size)]
-- 
2.43.0


From 646f98cf85d134d8593db34c7b18bc5ceb251271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 27/33] fix: a character definition without code points could
 not be read

---
 sudachipy/dictionarylib/charactercategory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/charactercategory.py b/sudachipy/dictionarylib/charactercategory.py
index fdecef3..c98282b 100644
--- a/sudachipy/dictionarylib/charactercategory.py
+++ b/sudachipy/dictionarylib/charactercategory.py
@@ -93,6 +93,8 @@ class CharacterCategory(object):
                 left_chain.put(left)
                 right_chain.pop(0)
         self.range_list = []
+        if not new_range_list:
+            return
         _range = new_range_list[0]
         for irange in new_range_list[1:]:
             if irange.low == _range.high and irange.categories == _range.categories:
-- 
2.43.0


From 46692397a1d3da6947e629e8f8b120ca9200ac9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:10 +0000
Subject: [PATCH 28/33] fix: threads reading word information at once got each
 other's bytes

---
 sudachipy/dictionarylib/wordinfolist.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index bfa7efe..a5ee954 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import struct
+import threading
 
 from .wordinfo import WordInfo
 
@@ -23,8 +24,13 @@ class WordInfoList(object):
         self.offset = offset
         self._word_size = word_size
         self.has_synonym_gid = has_synonym_gid
+        self._lock = threading.Lock()
 
     def get_word_info(self, word_id):
+        with self._lock:  # the position in the file is shared by all users of the dictionary
+            return self._read_word_info(word_id)
+
+    def _read_word_info(self, word_id):
         orig_pos = self.bytes.tell()
         index = self.word_id_to_offset(word_id)
         self.bytes.seek(index)
-- 
2.43.0


From c9a41ad2c561e32fc49b1a269a9f5f42cf96eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:17 +0000
Subject: [PATCH 29/33] fix: word information of a closed dictionary kept its
 files open

The cache of LexiconSet.get_word_info was shared by all dictionaries of the
process and held on to them: up to 1024 closed dictionaries stayed mapped,
each with an open file.
---
 sudachipy/dictionarylib/lexiconset.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index a9b54c5..bac3d31 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from functools import lru_cache
+import weakref
+from functools import lru_cache, partial
 from typing import List
 
 from .lexicon import Lexicon
@@ -25,6 +26,8 @@ class LexiconSet(Lexicon):
     def __init__(self, system_lexicon: Lexicon):
         self.lexicons = [system_lexicon]
         self.pos_offsets = [0]
+        # a cache for each set: a common one would keep the files of closed dictionaries open
+        self.get_word_info = lru_cache(1024)(partial(LexiconSet.get_word_info, weakref.proxy(self)))
 
     def add(self, lexicon: Lexicon, pos_offset: int) -> None:
         if lexicon not in self.lexicons:
@@ -58,7 +61,6 @@ class LexiconSet(Lexicon):
         return self.lexicons[self.get_dictionary_id(word_id)]\
             .get_cost(self.get_word_id1(word_id))
 
-    @lru_cache(1024)
     def get_word_info(self, word_id: int) -> 'WordInfo':  # noqa: F821
         dic_id = self.get_dictionary_id(word_id)
         winfo = self.lexicons[dic_id].get_word_info(self.get_word_id1(word_id))
-- 
2.43.0


From 0a4df50ac1312883a567ad0f2b9127938fa81407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:43 +0000
Subject: [PATCH 30/33] fix: the lattice grew by the whole length of every text
 longer than any before

It is empty between texts (size 0), so that expand() added lists that were
already there: texts of growing length kept memory quadratic in the longest.
---
 sudachipy/lattice.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index 4dd9a53..cadf6a6 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -50,7 +50,7 @@ cdef class Lattice:
         self.size = 0
 
     def expand(self, new_size: int) -> None:
-        expand_list = [[] for _ in range(self.size, new_size)]
+        expand_list = [[] for _ in range(self.capacity, new_size)]
         self.end_lists.extend(expand_list)
         self.capacity = new_size
 
-- 
2.43.0


From a542cc5605b45afbdb603e2888146ba46745dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:25 +0000
Subject: [PATCH 31/33] fix: the build command read the matrix in the encoding
 of the locale

All other sources are UTF-8; a matrix with a comment in another script could
not be read under a locale without UTF-8.
---
 sudachipy/command_line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 66f7fba..80479e0 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -119,7 +119,7 @@ def _command_build(args, print_usage):
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
-    with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r') as rf:
+    with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r', encoding='utf-8') as rf:
         wf.write(header.to_bytes())
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
-- 
2.43.0


From 00f84a9d49cd4093392d00d5a3c42f25a66cba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 32/33] fix: what a failed or interrupted build left could be
 opened as a dictionary

---
 sudachipy/command_line.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sudachipy/command_line.py b/sudachipy/command_line.py
index 80479e0..9551ae3 100644
--- a/sudachipy/command_line.py
+++ b/sudachipy/command_line.py
@@ -108,10 +108,14 @@ def _command_user_build(args, print_usage):
     header = DictionaryHeader(
         USER_DICT_VERSION_3, int(time.time()), args.description)
     dict_ = BinaryDictionary.from_system_dictionary(args.system_dic)
+    header_bytes = header.to_bytes()
     with open(args.out_file, 'wb') as wf:
-        wf.write(header.to_bytes())
+        # the header comes last: what a failed build leaves is not a dictionary
+        wf.write(bytes(len(header_bytes)))
         builder = UserDictionaryBuilder(dict_.grammar, dict_.lexicon)
         builder.build(args.in_files, None, wf)
+        wf.seek(0)
+        wf.write(header_bytes)
 
 
 def _command_build(args, print_usage):
@@ -119,10 +123,14 @@ def _command_build(args, print_usage):
     _input_files_checker(args, print_usage)
     header = DictionaryHeader(
         SYSTEM_DICT_VERSION_2, int(time.time()), args.description)
+    header_bytes = header.to_bytes()
     with open(args.out_file, 'wb') as wf, open(args.matrix_file, 'r', encoding='utf-8') as rf:
-        wf.write(header.to_bytes())
+        # the header comes last: what a failed build leaves is not a dictionary
+        wf.write(bytes(len(header_bytes)))
         builder = DictionaryBuilder()
         builder.build(args.in_files, rf, wf)
+        wf.seek(0)
+        wf.write(header_bytes)
 
 
 def _command_tokenize(args, print_usage):
-- 
2.43.0


From fd5e103fc6e5e737f14e71dace0f331d499f400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:33 +0000
Subject: [PATCH 33/33] fix: a dictionary that is cut off could be read as
 other words

---
 sudachipy/dictionarylib/doublearraylexicon.py | 4 ++++
 sudachipy/dictionarylib/wordinfolist.py       | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/doublearraylexicon.py b/sudachipy/dictionarylib/doublearraylexicon.py
index fb77ee8..a9e471a 100644
--- a/sudachipy/dictionarylib/doublearraylexicon.py
+++ b/sudachipy/dictionarylib/doublearraylexicon.py
@@ -48,6 +48,10 @@ class DoubleArrayLexicon(Lexicon):
         self.word_params = wordparameterlist.WordParameterList(bytes_, offset)
         offset += self.word_params.storage_size()
 
+        # parts that are cut off read as smaller sizes and no offsets
+        if len(bytes_) < offset + 4 * self.word_params.get_size():
+            raise ValueError('the dictionary is incomplete')
+
         self.word_infos = wordinfolist.WordInfoList(bytes_, offset, self.word_params.get_size(), has_synonym_gid)
 
     def __del__(self):
diff --git a/sudachipy/dictionarylib/wordinfolist.py b/sudachipy/dictionarylib/wordinfolist.py
index a5ee954..12e246a 100644
--- a/sudachipy/dictionarylib/wordinfolist.py
+++ b/sudachipy/dictionarylib/wordinfolist.py
@@ -75,7 +75,10 @@ class WordInfoList(object):
 
     def buffer_to_string(self):
         length = self.buffer_to_string_length()
-        return self.bytes.read(2 * length).decode('utf-16-le')
+        string = self.bytes.read(2 * length)
+        if len(string) < 2 * length:
+            raise ValueError('the dictionary is incomplete')
+        return string.decode('utf-16-le')
 
     def buffer_to_int_array(self):
         length = self.bytes.read_byte()
-- 
2.43.0

