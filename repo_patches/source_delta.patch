From a09ddd63afc07eb99808e80537bc1896d30e9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 01/27] fix: do not produce tokens with whitespace inside from
 keywords and operators

Lexers of Java, Python, Fortran, Perl and others return keywords and operators such as
'import static' or 'yield from' as one token.  In .prep files and vocabularies tokens are
separated by spaces, so such a token was silently read back as several different ones.
---
 codeprep/parse/matchers.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 5bc5062..792e6e3 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -2,8 +2,9 @@
 #
 # SPDX-License-Identifier: Apache-2.0
 
-from typing import List
+from typing import Callable, List
 
+import regex
 from pygments.token import Token
 
 from codeprep.parse.subtokens import split_into_words, split_string
@@ -15,6 +16,17 @@ from codeprep.tokens.word import KeyWord, Operator, Semicolon, OpeningCurlyBrack
     ClosingBracket
 
 
+def _transform_parts(value: str, transform: Callable[[str], List[ParsedToken]]) -> List[ParsedToken]:
+    """
+    Some lexers return keywords and operators with whitespace inside, e.g. `import static`,
+    but parsed tokens of these types must not contain spaces.
+    """
+    res = []
+    for part in regex.split('(\\s+)', value):
+        res.extend(transform(part) if part.strip() else split_into_words(part))
+    return res
+
+
 class DefaultMatcher(object):
     def match(self, token, value: str) -> bool:
         return True
@@ -75,7 +87,9 @@ class KeywordMatcher(object):
     def match(self, token, value: str) -> bool:
         return token in Token.Keyword
 
-    def transform(self, value: str) -> List[KeyWord]:
+    def transform(self, value: str) -> List[ParsedToken]:
+        if regex.search('\\s', value):
+            return _transform_parts(value, self.transform)
         return [KeyWord(value)]
 
 
@@ -120,7 +134,9 @@ class OperatorMatcher(object):
     def match(self, token, value: str):
         return token is Token.Operator or token in Token.Punctuation
 
-    def transform(self, value: str) -> List[Operator]:
+    def transform(self, value: str) -> List[ParsedToken]:
+        if regex.search('\\s', value):
+            return _transform_parts(value, self.transform)
         if value == ';':
             return [Semicolon()]
         elif value == '{':
-- 
2.43.0


From a7983ff0dd5c1fafdee870e74eec8d774330d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 02/27] fix: restore the case of words exactly

Word.from_(s) has to be printed as s.  Letters whose lower-case form does not map back
(e.g. U+1E9E, U+0130, U+212A) were replaced with other ones, and the inner capitals of a word
with non-ascii characters were lowercased when bpe or chars were used with no_unicode.
---
 codeprep/tokens/word.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..c4e73b5 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -51,7 +51,12 @@ class Word(ParsedSubtoken):
 
     @staticmethod
     def _is_strictly_upper(s) -> bool:
-        return s.isupper() and not s.lower().isupper()
+        return s.isupper() and not s.lower().isupper() and Word._can_be_restored_from_lower(s)
+
+    @staticmethod
+    def _can_be_restored_from_lower(s) -> bool:
+        # not the case e.g. for 'ẞ' (U+1E9E), 'İ' (U+0130) and the Kelvin sign (U+212A)
+        return s.lower().upper() == s
 
     @staticmethod
     def _check_canonic_form_is_valid(canonic_form) -> None:
@@ -86,7 +91,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[:1].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
@@ -109,9 +114,9 @@ class Word(ParsedSubtoken):
 
         if s.islower() or not s:
             return cls(s, Word.Capitalization.NONE)
-        elif s.isupper():
+        elif s.isupper() and cls._can_be_restored_from_lower(s):
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper():
+        elif s[0].isupper() and cls._can_be_restored_from_lower(s[0]):
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From df584c1023476014e1ccaceacce5797ea53ffb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 03/27] fix: do not damage entries of the bpe merges cache when
 they are used

unescape() removed the end-of-word character from the cached list itself, so the second
lookup of a cached word failed with ValueError.
---
 codeprep/bpepkg/bpe_encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..8ece8dd 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,7 +40,7 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
+    parts = parts[:-1] + [parts[-1][:-1]]  # not changing the passed list since it can be an entry of the merges cache
     return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
 
 
-- 
2.43.0


From f19a53df1912c75cc76bb9b3e7e0166e062e5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 04/27] fix: do not lose tabs of multi-tab indentation

A run of whitespace gave one tab token per four characters of any kind, so '\t\t' gave none,
while '\t' gave one and comments gave one per tab character.
---
 codeprep/parse/matchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 792e6e3..f038e4f 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -106,7 +106,7 @@ class WhitespaceMatcher(object):
         return value.strip() == ''
 
     def transform(self, value: str) -> List[Tab]:
-        return [Tab()] * (len(value) // 4)
+        return [Tab() for _ in regex.finditer('\t| {4}', value)]
 
 
 class TabMatcher(object):
-- 
2.43.0


From 85ceb32fb96c4791b7e697b9dcac22dde926cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 05/27] fix: do not drop string literals consisting of spaces

Lexers which return quotes separately (e.g. Python's) give the content of ' ' as a string token
with only whitespace. It was treated as indentation, thus full_strings, no_str and max_str_length
lost it.
---
 codeprep/parse/matchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index f038e4f..761d882 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -103,7 +103,7 @@ class NewLineMatcher(object):
 
 class WhitespaceMatcher(object):
     def match(self, token, value: str) -> bool:
-        return value.strip() == ''
+        return value.strip() == '' and not (value and token in Token.Literal.String)
 
     def transform(self, value: str) -> List[Tab]:
         return [Tab() for _ in regex.finditer('\t| {4}', value)]
-- 
2.43.0


From 5cf8a70fd2bc5134be880fe80680fda4f5ab0efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 06/27] fix: whole-text bpe of an empty text has no merges
 instead of failing

---
 codeprep/bpepkg/wild_bpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index 96489e5..b8ed4f7 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -109,7 +109,7 @@ def are_symmetric(pair1: str, pair2: str):
 def build_indices(it: Generator[str, None, None]) -> Tuple[Dict[str, List[int]], Dict[str, Dict[Side, Set[str]]]]:
     index = defaultdict(list)
     index_index = defaultdict(lambda: {Side.LEFT: set(), Side.RIGHT: set()})
-    first_char = next(it)
+    first_char = next(it, '')
     last_key = None
     for i, second_char in enumerate(it):
         key = ' '.join([first_char, second_char])
-- 
2.43.0


From cb0a696406f3a8e5f87ad0a15863a7bcbfd16d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 07/27] fix: do not repeat the start of files that are not
 UTF-8 in whole-text bpe

---
 codeprep/bpepkg/wild_bpe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index b8ed4f7..4b70a86 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -51,10 +51,12 @@ class Side(Enum):
 
 
 def get_char_iterator_for_file(path_to_file: str):
+    # reading everything first: characters that precede the first invalid byte must not be returned twice
     try:
-        yield from get_char_iterator_for_file_with_encoding(path_to_file, 'utf-8')
+        chars = list(get_char_iterator_for_file_with_encoding(path_to_file, 'utf-8'))
     except UnicodeDecodeError:
-        yield from get_char_iterator_for_file_with_encoding(path_to_file, 'ISO-8859-1')
+        chars = list(get_char_iterator_for_file_with_encoding(path_to_file, 'ISO-8859-1'))
+    yield from chars
 
 
 def escape_char(char: str):
-- 
2.43.0


From 771d79f3398d3648737426a1e6a17da94798e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 08/27] fix: partial vocabularies are complete on disk before
 they are relied on

---
 codeprep/pipeline/vocab.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..3d68deb 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -30,6 +30,7 @@ logger = logging.getLogger(__name__)
 queue_size = AtomicInteger()
 
 PARTVOCAB_EXT = 'partvocab'
+NOT_FINISHED_EXT = 'part'
 PARTIAL_VOCABS_READY_FILENAME = 'ready'
 
 VOCABSIZE_FILENAME = 'vocabsize'
@@ -197,7 +198,10 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        not_finished_file = f'{path_to_new_file}.{NOT_FINISHED_EXT}'
+        with open(not_finished_file, 'wb') as f:
+            pickle.dump(first, f)
+        os.rename(not_finished_file, path_to_new_file)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,13 +223,15 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
-        pickle.load(open(path_to_new_file, 'rb'))
+        with open(path_to_new_file, 'rb') as f:
+            pickle.load(f)
     except EOFError:
         # file has not been written properly
         os.remove(path_to_new_file)
@@ -292,7 +298,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
-- 
2.43.0


From 88a601b37ed13d9805965d32430621a022c7b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 09/27] fix: vocabulary files appear under their names only
 when complete

---
 codeprep/pipeline/vocab.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 3d68deb..0383f2b 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -79,11 +79,13 @@ class PartialVocab(object):
 
     def write_stats(self, path_to_stats_file: str) -> None:
         stats = self.__generate_stats()
-        with open(path_to_stats_file, 'w') as f:
+        not_finished_file = f'{path_to_stats_file}.{NOT_FINISHED_EXT}'
+        with open(not_finished_file, 'w') as f:
             vocabsize = int(stats[-1][1][0])
             f.write(f'{vocabsize}\n')
             for percent, (v, n) in stats:
                 f.write(f"{percent:.4f} {int(v)} {int(n)}\n")
+        os.rename(not_finished_file, path_to_stats_file)
 
     def limit_max_vocab(self, vocab_size_threshold: int) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
@@ -97,7 +99,9 @@ class PartialVocab(object):
 
     def write_vocab(self, path_to_vocab_file: str) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        _dump_vocab_dict(sorted_vocab, path_to_vocab_file, to_literal=False)
+        not_finished_file = f'{path_to_vocab_file}.{NOT_FINISHED_EXT}'
+        _dump_vocab_dict(sorted_vocab, not_finished_file, to_literal=False)
+        os.rename(not_finished_file, path_to_vocab_file)
 
     def __generate_stats(self):
         d = defaultdict(list)
-- 
2.43.0


From 047d54a8c264683e3bd02b541cc6d3d6ffb9536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 10/27] fix: calculate vocabulary together with missing or
 outdated output

---
 codeprep/pipeline/stages.py | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index eb13220..e93c8e9 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -5,7 +5,6 @@
 """This module runs different stages of preprocessing flow and makes sure not to rerun a stage if its results are already available.
 """
 import logging
-import os
 from typing import Optional
 
 from codeprep.pipeline import parse_projects, to_repr
@@ -52,19 +51,7 @@ def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[Custo
 
 
 def run_until_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
-    logger.info(f'Checking first if vocabulary file exists: {dataset.path_to_vocab_file}')
-    if os.path.exists(dataset.path_to_vocab_file):
-        logger.info("Vocabulary is already computed and up-to-date")
-        return
-
-    if not is_path_ready(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-    elif is_path_outdated(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
-        logger.info("Computing vocab...")
-        archive_path(dataset.path_to_bpe_vocab_file)
-        calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-    else:
-        raise AssertionError()
\ No newline at end of file
+    run_until_preprocessing(dataset, custom_bpe_config)
+    logger.info("Computing vocab...")
+    # does nothing if the vocabulary is already computed
+    calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-- 
2.43.0


From 00f9bb36bf5c68cc62fa91aae0bef300ebdc7408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 11/27] fix: notice changes of the top directory and of linked
 directories of a dataset

---
 codeprep/dirutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..fbb46ff 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -56,10 +56,9 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
 
     def walk_path(path):
         counter = 0
-        if os.path.isfile(path) or len(os.listdir(path)) == 0:
-            yield os.path.getmtime(path)
-        else:
-            for root, dirs, files in os.walk(path):
+        yield os.path.getmtime(path)
+        if not os.path.isfile(path):
+            for root, dirs, files in os.walk(path, followlinks=True):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From f1ae5d1db799b2817fa50ec47891e128646f8163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:50 +0000
Subject: [PATCH 12/27] fix: do not fail on file extensions that are not UTF-8

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..84398de 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -38,7 +38,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
             logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
                          f"Invalid symlink? Ignoring ...")
             return
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.path.splitext(src_file_path)[1].decode(errors='replace')[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 6becde28738ced2fc460421463ca92f5a03a88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:12 +0000
Subject: [PATCH 13/27] fix: collect non-processable tokens of files with long
 or equal names

---
 codeprep/pipeline/to_repr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..26ab644 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -7,11 +7,11 @@ import logging
 import os
 import pickle
 import platform
+import uuid
 from multiprocessing.pool import Pool
 from typing import List, Tuple
 from typing import Optional
 
-import time
 from tqdm import tqdm
 
 from codeprep.bpepkg.bpe_encode import read_merges, BpeData
@@ -76,7 +76,8 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        # the name of the preprocessed file is not used because it can be too long or not unique
+        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, uuid.uuid4().hex))
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
-- 
2.43.0


From 7b7092fb939dc6e085fa786c91cbaf35047ee02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:16 +0000
Subject: [PATCH 14/27] fix: do not build upon incompletely written
 non-processable tokens

---
 codeprep/pipeline/to_repr.py     | 4 +++-
 codeprep/pipeline/vocabloader.py | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 26ab644..14bcfea 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -77,7 +77,9 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
 
     if part_nonbpe_vocab_folder:
         # the name of the preprocessed file is not used because it can be too long or not unique
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, uuid.uuid4().hex))
+        path_to_metadata = os.path.join(part_nonbpe_vocab_folder, uuid.uuid4().hex)
+        save_metadata(metadata, path_to_metadata + NOT_FINISHED_EXTENSION)
+        os.rename(path_to_metadata + NOT_FINISHED_EXTENSION, path_to_metadata)
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..5b08b74 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -8,7 +8,7 @@ import shutil
 from typing import Set, Dict
 
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -46,10 +46,14 @@ def gather_non_bpe_vocab(dataset: Dataset):
     for idx, file in enumerate(os.listdir(part_nonbpe_vocab_dir)):
         if idx % 569 == 0:
             print(f'Files processed: {idx}', end='\r')
+        if file.endswith(NOT_FINISHED_EXTENSION):
+            continue # left by an interrupted run
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    not_finished_file = dataset.path_to_nonbpe_vocab_file + NOT_FINISHED_EXTENSION
+    with open(not_finished_file, 'w') as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
+    os.rename(not_finished_file, dataset.path_to_nonbpe_vocab_file)
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From e8a5a7e524de08a1fb2c9300c5b942cd1ef09472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:34 +0000
Subject: [PATCH 15/27] fix: results of bpe learning appear under their name
 only when complete

---
 codeprep/pipeline/bpelearner.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..c7870e3 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -4,6 +4,7 @@
 
 import logging
 import os
+import shutil
 from typing import Tuple, Dict, Set, Optional
 
 from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam, BpeConfigNotSupported
@@ -14,7 +15,7 @@ from codeprep.bpepkg.merge import MergeList, read_merges, dump_merges
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import get_max_merges, MERGES_FILE_NAME, MERGES_CACHE_FILE_NAME, \
     RESULTING_VOCAB_FILE_NAME, BPE_REASSEMBLED_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset
+from codeprep.pipeline.dataset import Dataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
 from codeprep.util import to_non_literal_str
 
@@ -68,8 +69,11 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
     return dir_with_most_merges
 
 
-def save_results(split_base_vocab, merges, new_bpe_dir):
+def save_results(split_base_vocab, merges, final_bpe_dir):
 
+    new_bpe_dir = final_bpe_dir + NOT_FINISHED_EXTENSION
+    if os.path.exists(new_bpe_dir): # left by an interrupted run
+        shutil.rmtree(new_bpe_dir)
     os.makedirs(new_bpe_dir)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
@@ -81,7 +85,8 @@ def save_results(split_base_vocab, merges, new_bpe_dir):
 
     dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
     _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
-    logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
+    os.rename(new_bpe_dir, final_bpe_dir)
+    logger.info(f'Bpe output files are saved into {final_bpe_dir} folder')
 
 
 def run(dataset: Dataset, n_merges: int, bpe_config: BpeConfig) -> None:
-- 
2.43.0


From 8f32912aec75ffe76dae90fe131db0a83bb6bed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 16/27] fix: assign unique bpe codes ids to datasets with
 special characters in names

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..cd60dac 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -111,7 +111,7 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
-- 
2.43.0


From 6080e508872daaee524b42f8017cd4aecc15e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 17/27] fix: find the base vocabulary of datasets with _-_ in
 names

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index cd60dac..b5540c0 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -154,7 +154,7 @@ def get_base_vocab_dir(bpe_list_id: str) -> str:
     dataset_bpe_dir = get_dataset_bpe_dir(bpe_list_id)
     prep_config_str = os.path.basename(dataset_bpe_dir)
     #TODO do not hard code date and dir format in general
-    m = regex.fullmatch(r'(.*?)((?:_-_.*)?)', prep_config_str)
+    m = regex.fullmatch(r'(.*?)((?:_-_[a-z]+(?:_[a-z]+)*)?)', prep_config_str)
     if not m:
         raise ValueError(f'Invalid dir format: {prep_config_str}')
     bpe_config = BpeConfig.from_suffix(m[2])
-- 
2.43.0


From 920627642443febbe940bcd39e28cfa9090e7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 18/27] fix: do not assign a bpe codes id twice if no merges
 have been learned yet

---
 codeprep/pipeline/bperegistry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index b5540c0..23e4ed4 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -192,6 +192,8 @@ def load_bpe_merges(merge_list_id: str, n_merges: int) -> MergeList:
 def format_available_merge_list_ids() -> str:
     res = ""
     for k, v in _get_all_custom_bpe_codes_and_max_merges().items():
+        if not v: # no merges have been learned yet
+            continue
         res += f'{k}-[1..{v}]\n'
     return res
 
@@ -227,8 +229,8 @@ def _get_all_custom_bpe_codes_and_max_merges() -> Dict[str, int]:
         path = os.path.join(USER_BPE_DIR, bpe_dir)
         code = get_codes_id_by_bpe_path(path)
         max_merges = get_max_merges(path)
-        if code and max_merges:
-            result[code] = max_merges
+        if code:
+            result[code] = max_merges or 0
     return result
 
 
-- 
2.43.0


From 6d763068cd420a3a15bf41f4fd2e2a5adbe374c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 19/27] fix: archive outdated output which is on another file
 system

---
 codeprep/pipeline/dataset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 59f8c7e..6a530a9 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -5,6 +5,7 @@
 import ast
 import logging
 import os
+import shutil
 from typing import Type, Optional, Generator, List
 
 from codeprep.bpepkg.bpe_config import BpeConfig
@@ -320,8 +321,8 @@ def archive_path(path: str) -> None:
     timestamp = get_timestamp(path)
     if not os.path.exists(DEFAULT_PREP_DATASETS_DIR):
         os.makedirs(DEFAULT_PREP_DATASETS_DIR)
-    os.rename(path, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}'))
-    os.rename(modif_file, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(modif_file)}.{ARCHIVED_EXT}.{timestamp}'))
+    shutil.move(path, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(path)}.{ARCHIVED_EXT}.{timestamp}'))
+    shutil.move(modif_file, os.path.join(DEFAULT_PREP_DATASETS_DIR, f'{os.path.basename(modif_file)}.{ARCHIVED_EXT}.{timestamp}'))
 
 
 def normalize_extension_string(extensions: Optional[str]) -> Optional[List[str]]:
-- 
2.43.0


From 13081c066d2e625a325055fa9c42535acb07fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:30 +0000
Subject: [PATCH 20/27] fix: skip named pipes and other special files of a
 dataset

---
 codeprep/dirutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index fbb46ff..8610983 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -46,7 +46,9 @@ def walk_and_save(path: str, dir_list_path: str, file_list_path: str, return_dir
                 for file in files:
                     bin_name = os.path.join(os.path.relpath(root, path_bin), file)
                     if not extensions or has_one_of_extensions(bin_name, extensions_bin):
-                        if not os.path.islink(os.path.join(root, file)):
+                        full_path = os.path.join(root, file)
+                        # named pipes, sockets etc. cannot be preprocessed
+                        if os.path.isfile(full_path) and not os.path.islink(full_path):
                             f.write(f'{bin_name}\n')
                             if not return_dirs_instead_of_regular_files:
                                 yield bin_name
-- 
2.43.0


From 80ad59bc547d9f689708a40ffb7cf3b09d843fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 21/27] fix: corpus size is stored only when complete

---
 codeprep/api/corpus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..2cc5ed2 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -16,7 +16,7 @@ from codeprep.config import CHUNKSIZE
 from codeprep.config import test_data_dir
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import CustomBpeConfig, is_predefined_id
-from codeprep.pipeline.dataset import Dataset, SubDataset
+from codeprep.pipeline.dataset import Dataset, SubDataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _load_vocab_dict
 from codeprep.prepconfig import PrepConfig
 
@@ -48,8 +48,10 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            not_finished_file = self._path_to_corpus_size_file + NOT_FINISHED_EXTENSION
+            with open(not_finished_file, 'w') as f:
                 f.write(f'{corpus_size}')
+            os.rename(not_finished_file, self._path_to_corpus_size_file)
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
 
-- 
2.43.0


From f139d6f985838dc288c6ecb6d7d3afa58aee6bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 22/27] fix: vocabulary mergers are started before the task
 queues are filled

---
 codeprep/pipeline/vocab.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0383f2b..6ec95f6 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -259,11 +259,9 @@ def finish_file_dumping(path_to_new_file: str) -> None:
     os.rename(path_to_new_file, new_file)
 
 
-def list_to_queue(lst: List) -> Queue:
-    queue = Queue()
+def fill_queue(queue: Queue, lst: List) -> None:
     for elm in lst:
         queue.put_nowait(elm)
-    return queue
 
 
 def create_initial_partial_vocabs(all_files: List[bytes], path_to_dump: str) -> List[PartialVocab]:
@@ -279,17 +277,15 @@ def create_initial_partial_vocabs(all_files: List[bytes], path_to_dump: str) ->
     return partial_vocabs_queue
 
 
-def create_chunk_queue(chunk_sizes: Dict[int, int], num_mergers: int) -> Tuple[Queue, int]:
-    chunk_queue_list = [chunk for chunk, chunk_size in chunk_sizes.items() for _ in range(chunk_size - 1)]
-    return list_to_queue(chunk_queue_list + [-1 for _ in range(num_mergers)]), len(chunk_queue_list)
+def create_chunk_list(task_lists_in_chunks: Dict[int, List[PartialVocab]]) -> List[int]:
+    return [chunk for chunk, task_list in task_lists_in_chunks.items() for _ in range(len(task_list) - 1)]
 
 
-def mapify_tasks(tasks: List[PartialVocab]) -> Tuple[Dict[int, Queue], Dict[int, int]]:
+def mapify_tasks(tasks: List[PartialVocab]) -> Dict[int, List[PartialVocab]]:
     task_lists_in_chunks = defaultdict(list)
     for task in tasks:
         task_lists_in_chunks[task.chunk].append(task)
-    return {chunk: list_to_queue(task_list_in_chunk) for chunk, task_list_in_chunk in
-            task_lists_in_chunks.items()}, {k: len(v) for k, v in task_lists_in_chunks.items()}
+    return task_lists_in_chunks
 
 
 def load_partial_vocabs(path: str) -> List[PartialVocab]:
@@ -382,8 +378,11 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
         task_list = create_partial_vocabs(file_iterator, path_to_dump)
 
     logger.debug(f"Using {n_processes} mergers, number of partial vocabs: {len(task_list)}")
-    tasks_queues, chunk_sizes = mapify_tasks(task_list)
-    chunk_queue, merges_to_be_done = create_chunk_queue(chunk_sizes, n_processes)
+    task_lists_in_chunks = mapify_tasks(task_list)
+    chunk_list = create_chunk_list(task_lists_in_chunks)
+    merges_to_be_done = len(chunk_list)
+    tasks_queues = {chunk: Queue() for chunk in task_lists_in_chunks}
+    chunk_queue = Queue()
     logger.debug(f'==================    Starting merging    =================')
     logger.debug(f'Merges need to be done: {merges_to_be_done}')
     process_counter = counter_class(n_processes)
@@ -396,6 +395,12 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
     for merger in mergers:
         merger.start()
 
+    # The queues must be filled only after the mergers have been started: putting elements to a queue starts a thread
+    # which pickles them, and a merger forked while this thread is holding an import lock would wait for the lock forever
+    for chunk, task_list_in_chunk in task_lists_in_chunks.items():
+        fill_queue(tasks_queues[chunk], task_list_in_chunk)
+    fill_queue(chunk_queue, chunk_list + [-1 for _ in range(n_processes)])
+
     for merger in mergers:
         merger.join()
 
-- 
2.43.0


From 538a24c85fc30f9131871b6d0032202f0d4d8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 23/27] fix: empty text on the command line is preprocessed as
 a text

---
 codeprep/cli/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index 93b922d..5031c47 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -67,7 +67,7 @@ def handle_splitting(args: Dict) -> None:
     try:
         prep_config = create_prep_config_from_args(args)
         bpe_codes_id = get_option(args, '<bpe-codes-id>') or get_predefined_bpe_codes_id(args)
-        if args['<text>']:
+        if args['<text>'] is not None:
             prep_text = codeprep.api.text.preprocess(args['<text>'], prep_config, bpe_codes_id,
                                                      extension=args['--ext'])
             print(prep_text)
-- 
2.43.0


From f3b6da2163fd0488cf59cb124415717c5abb1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 24/27] fix: name of a dataset given with a trailing slash or
 as '.'

---
 codeprep/pipeline/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 6a530a9..c0a1f1b 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -161,7 +161,7 @@ class Dataset(object):
 
     @property
     def name(self) -> str:
-        return os.path.basename(self.path)
+        return os.path.basename(os.path.abspath(self.path))
 
     @property
     def dataset_last_modified(self) -> str:
-- 
2.43.0


From 75f3a42e9e83039fef0b2b68c38355dc645f3eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:25 +0000
Subject: [PATCH 25/27] fix: runs restricted to extensions with underscores
 shared directories with others

---
 codeprep/pipeline/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index c0a1f1b..6fa1455 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -175,7 +175,8 @@ class Dataset(object):
     def get_dataset_dir_name(self) -> str:
         name = f'{self.name}_{self.dataset_last_modified}'
         if self._normalized_extension_list:
-            name += ('_' + "_".join(self._normalized_extension_list))
+            # underscores in extensions are escaped for the names for e.g. "c|h" and "c_h" to be different
+            name += ('_' + "_".join(ext.replace('%', '%25').replace('_', '%5F') for ext in self._normalized_extension_list))
         return name
 
     @property
-- 
2.43.0


From 065818163811ce39791c7a8e02ddcba2d71a2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 26/27] fix: a run on a dataset with no selected files failed
 when its earlier output was outdated

---
 codeprep/pipeline/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 6fa1455..fc3cc64 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -74,6 +74,7 @@ class SubDataset(object):
 
     def archive(self) -> None:
         archive_path(self.path)
+        os.makedirs(self.path)  # if no files are selected, nothing else creates it
 
     def __eq__(self, o: object) -> bool:
         if isinstance(o, SubDataset):
-- 
2.43.0


From 3300e671197e16360a810cf8739a165512f8eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 27/27] fix: recompute a removed non-bpe vocabulary when codes
 are learned

---
 codeprep/pipeline/bpelearner.py | 2 ++
 codeprep/pipeline/stages.py     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index c7870e3..ab59fa2 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -28,6 +28,8 @@ def get_base_vocab(dataset: Dataset) -> Tuple[Dict[str, int], Dict[str, int]]:
 
 
 def load_nonbpe_vocab(dataset: Dataset) -> Set[str]:
+    if not os.path.exists(dataset.path_to_nonbpe_vocab_file):
+        stages.run_until_base_bpe_vocab(dataset)
     non_bpe_vocab = set()
     with open(dataset.path_to_nonbpe_vocab_file, 'r') as f:
         for line in f:
diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index e93c8e9..021e186 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -5,6 +5,7 @@
 """This module runs different stages of preprocessing flow and makes sure not to rerun a stage if its results are already available.
 """
 import logging
+import os
 from typing import Optional
 
 from codeprep.pipeline import parse_projects, to_repr
@@ -39,6 +40,9 @@ def run_until_preprocessing(dataset: Dataset, custom_bpe_config: Optional[Custom
 
 
 def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
+    if dataset.preprocessed.ready() and not os.path.exists(dataset.path_to_nonbpe_vocab_file):
+        # the non-bpe vocabulary has been removed, it is collected again only if the files are preprocessed again
+        dataset.preprocessed.archive()
     run_until_preprocessing(dataset, custom_bpe_config)
     logger.info("Computing base bpe vocab...")
     if not is_path_ready(dataset.path_to_bpe_vocab_file):
-- 
2.43.0

