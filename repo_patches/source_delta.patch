From e9e2437311cad05cae9d0c86c60c6fe1eceef751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 001/155] fix: StringView: negative indices, range limits of
 startswith/endswith and split() without separator

sv[-1] and sv[-20] returned the wrong or an empty view, startswith()/endswith()
looked beyond the end of the view if 'end' exceeded its length and did not
understand negative indices, split() crashed if the view had not been
converted to a string before, inverted slices left an inconsistent view.
---
 DHParser/stringview.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index bf7ac04..08d8cb9 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -121,6 +121,7 @@ class StringView:  # collections.abc.Sized
         _len = _end - _begin  # type: int
         if _len < 0:
             _len = 0
+            _end = _begin
         self._begin = _begin   # type: int
         self._end = _end       # type: int
         self._len = _len       # type: int
@@ -195,7 +196,9 @@ class StringView:  # collections.abc.Sized
             return StringView(self._text, _begin + start, _begin + stop)
         except AttributeError:
             _index = index
-            if _index >= self._len:
+            if _index < 0:
+                _index += self._len
+            if _index < 0 or _index >= self._len:
                 raise IndexError("StringView index %i out of range 0 - %i" % (_index, self._len))
             _begin = self._begin
             return StringView(self._text, self._begin + _index, self._begin + _index + 1)
@@ -270,8 +273,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
+        start = self._begin + (start if start >= 0 else pack_index(start, self._len))
+        end = self._end if end is None else self._begin + pack_index(end, self._len)
         return self._text.startswith(prefix, start, end)
 
     def endswith(self,
@@ -282,8 +285,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
+        start = self._begin + (start if start >= 0 else pack_index(start, self._len))
+        end = self._end if end is None else self._begin + pack_index(end, self._len)
         return self._text.endswith(suffix, start, end)
 
     def match(self, regex, flags: cython.int = 0):
@@ -363,8 +366,8 @@ class StringView:  # collections.abc.Sized
         whitespace string is a separator and empty strings are
         removed from the result.
         """
-        if self._fullstring:
-            return self._fullstring.split(sep)
+        if self._fullstring or sep is None:
+            return str(self).split(sep)
         else:
             pieces = []   # type: List[Union['StringView', str]]
             length = len(sep)
-- 
2.43.0


From d55d3754c87e7a53072d86943d312fd02c29258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 002/155] fix: TextBuffer: len() of an empty buffer raised
 ValueError

---
 DHParser/stringview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 08d8cb9..ee3b6bf 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -424,7 +424,7 @@ class TextBuffer:
         if self._text:
             return len(self._text)
         else:
-            return sum(len(line) for line in self._buffer) + len(self._buffer) - 1
+            return max(0, sum(len(line) for line in self._buffer) + len(self._buffer) - 1)
 
     @property
     def buffer(self) -> List[Union[str, StringView]]:
-- 
2.43.0


From b1bb36b48ce25dd27d4e28063ddeaa448b62967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 003/155] fix: Counted: a failing repetition must not advance
 the location (optional counted elements swallowed text)

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..5374244 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3900,14 +3900,15 @@ class Counted(UnaryParser):
         copy_combined_parser_attrs(self, duplicate)
         return duplicate
 
-    @cython.locals(location_=cython.int)
+    @cython.locals(location_=cython.int, start=cython.int)
     def _parse(self, location: cython.int):
         results: Tuple[Node, ...] = ()
+        start = location
         location_ = location
         for _ in range(self.repetitions[0]):
             node, location = self.parser(location)
             if node is None:
-                return None, location_
+                return None, start
             if node._result or node.name[0] != ':':
                 results += (node,)
             if location_ >= location:
-- 
2.43.0


From 53f3ca08c8ff9632c483c926716e4d88b97b3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:52 +0000
Subject: [PATCH 004/155] fix: Interleave: elements occurring more than once
 and elements matching empty text were confused with one another

---
 DHParser/parse.pxd |  1 -
 DHParser/parse.py  | 27 ++++++++++++++++-----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/DHParser/parse.pxd b/DHParser/parse.pxd
index 7484e30..d537b8f 100644
--- a/DHParser/parse.pxd
+++ b/DHParser/parse.pxd
@@ -151,7 +151,6 @@ cdef class TextAlternative(Alternative):
 cdef class Interleave(ErrorCatchingNary):
     cdef public object repetitions
     cdef public object non_mandatory
-    cdef public object parsers_set
 
 cdef class FlowParser(UnaryParser):
     pass
diff --git a/DHParser/parse.py b/DHParser/parse.py
index 5374244..0c3de34 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4540,8 +4540,8 @@ class Interleave(ErrorCatchingNary):
         elif len(parsers) != len(repetitions):
             raise ValueError("Number of repetition-tuples unequal number of sub-parsers!")
         self.repetitions = list(repetitions)  # type: List[Tuple[int, int]]
-        self.non_mandatory = frozenset(parsers[i] for i in range(min(mandatory, len(parsers))))
-        self.parsers_set = frozenset(self.parsers)
+        # Parsers are identified by their index, because the same parser may occur more than once
+        self.non_mandatory = frozenset(range(min(self.mandatory, len(parsers))))
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
@@ -4555,12 +4555,12 @@ class Interleave(ErrorCatchingNary):
         results = ()  # type: Tuple[Node, ...]
         location_ = location  # type: int
         counter = [0] * len(self.parsers)
-        consumed = set()  # type: MutableSet[Parser]
+        consumed = set()  # type: MutableSet[int]
         error = None  # type: Optional[Error]
         while True:
             # there is an order of testing, but no promise about the order of testing, here!
             for i, parser in enumerate(self.parsers):
-                if parser not in consumed:
+                if i not in consumed:
                     node, location__ = parser(location_)
                     if node is not None:
                         if node._result or not node.name[0] == ':':  # node.anonymous:  # drop anonymous empty nodes
@@ -4568,14 +4568,19 @@ class Interleave(ErrorCatchingNary):
                             # location_ = location__
                         counter[i] += 1
                         if counter[i] >= self.repetitions[i][1]:
-                            consumed.add(parser)
+                            consumed.add(i)
+                        elif location__ <= location_:
+                            # an empty match could be repeated forever, so never try this parser again
+                            infinite_loop_warning(self, node, location)
+                            counter[i] = max(counter[i], self.repetitions[i][0])
+                            consumed.add(i)
                         break
             else:
-                for i, parser in enumerate(self.parsers):
+                for i in range(len(self.parsers)):
                     if counter[i] >= self.repetitions[i][0]:
-                        consumed.add(parser)
+                        consumed.add(i)
                 if self.non_mandatory <= consumed:
-                    if len(consumed) == len(self.parsers_set):  # faster than: comsumed == self.parsers_set
+                    if len(consumed) == len(self.parsers):
                         break
                 else:
                     return None, location
@@ -4585,9 +4590,9 @@ class Interleave(ErrorCatchingNary):
                 results += (err_node,)
                 if reloc < 0:
                     break
-            if location__ <= location_:
-                infinite_loop_warning(self, node, location)
-                break  # infinite loop protection
+                if location__ <= location_:
+                    infinite_loop_warning(self, err_node, location)
+                    break  # infinite loop protection
             location_ = location__
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
-- 
2.43.0


From 6d4cf17aea40248fc8c6ec4e9ecb5fbadad97405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 005/155] fix: malformed regular expressions when optimizing
 sequences of dropped items

---
 DHParser/ebnf.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8a000c7..a793e9e 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3142,18 +3142,15 @@ class EBNFCompiler(Compiler):
         if self.directives.reduction >= REDUCTION['merge_leaves'] \
                 or (self.directives.reduction >= REDUCTION['merge_treetops']
                     and not any(re.match(r'\(?P<[^:]', r) for r in rxps)):
-            last_group, last_re = get_regex_group(rxps[0])
-            for i in range(1, len(rxps)):
-                this_group, stripped_re = get_regex_group(rxps[i])
-                if this_group == last_group and not re.match(r'\(?P<[^:]', this_group):
-                    if get_regex_group(rxps[i - 1], expect_group=False)[0] == last_group:
-                        last_rx = self.fix_group(node[i - 1], last_re)
-                        rxps[i - 1] = last_group + last_rx
-                    else:
-                        rxps[i - 1] = rxps[i - 1][:-1]
-                    rxps[i] = self.fix_group(node[i], stripped_re)
-                    if this_group or i < len(rxps) - 1:  rxps[i] += ')'
-                last_group, last_re = this_group, stripped_re
+            runs: List[Tuple[str, List[str], str]] = []  # runs of groups of the same type
+            for nd, rxp in zip(node.children, rxps):
+                group, stripped_re = get_regex_group(rxp)
+                if runs and runs[-1][0] == group and not re.match(r'\(\?P<[^:]', group):
+                    runs[-1][1].append(self.fix_group(nd, stripped_re))
+                else:
+                    runs.append((group, [self.fix_group(nd, stripped_re)], rxp))
+            rxps = [rxp if len(parts) == 1 else ''.join([group, *parts, ')' if group else ''])
+                    for group, parts, rxp in runs]
         expr = ''.join(rxps)
         if get_regex_group(expr, expect_group=False) == ('', ''):
             expr = ''.join(["(?:", *rxps, ")"])
-- 
2.43.0


From 610c3392cd2bb3be87845cb0150875ff81f801f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 006/155] fix: optimized options of literals with several
 characters matched wrongly

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index a793e9e..afe4c01 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3325,7 +3325,8 @@ class EBNFCompiler(Compiler):
         rxp, rep_str = self.compile(node.children[0], self.find_smartRE_method)
         if rxp[:3] == '(?:':
             stripped_re = rxp[3:-1]
-            if not self.requires_group(node.children[0], stripped_re):
+            if len(stripped_re) == 1 or (node.children[0].name not in ('plaintext', 'literal')
+                    and not self.requires_group(node.children[0], stripped_re)):
                 rxp = stripped_re
         return ''.join(['(?:', rxp, '?)']), ''.join(['[', rep_str, ']'])
 
-- 
2.43.0


From 4717a6c9757dfa957adbbb89059b32b0d824945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 007/155] fix: rearranging of alternatives changed the matched
 language or the dropped whitespace

---
 DHParser/ebnf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index afe4c01..deb5ff0 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -776,6 +776,9 @@ def get_globals(path: Path) -> Dict[str, Any]:
                 break
         else:
             globals['literalws'] = get_config_value('default_literalws')
+        globals['drop'] = {nd.content for item in root.children
+                           if item.name == 'directive' and item[0].content == "drop"
+                           for nd in item.children[1:]}
         root.attr['globals'] = globals
     return globals
 
@@ -844,8 +847,10 @@ def rearrange_expression(path: Path):
         return   # expression node has already been replaced...
     globals = get_globals(path)
     optimizations = globals['optimizations']
-    if not any(opt in optimizations for opt in ('rearrange_anternative', 'alternative')):
+    if not any(opt in optimizations for opt in ('rearrange_alternative', 'alternative')):
         return
+    if 'strings' in globals['drop'] and not globals['drop'] & {'whitespace', 'no_comments'}:
+        return  # whitespace of literals is dropped, but explicit whitespace is not
     lws = globals['literalws']
     if lws not in ('left', 'right', 'both'):
         return
@@ -859,7 +864,7 @@ def rearrange_expression(path: Path):
         elif nd.name == "sequence":
             a = 1 if left and nd[0].name == "whitespace" else 0
             b = -1 if right and nd[-1].name == "whitespace" else None
-            if a or b:
+            if bool(a) == left and bool(b) == right and len(nd.children) > a - (b or 0):
                 clipped = nd[a:b]
                 children.append(clipped[0] if len(clipped) == 1
                                 else Node("sequence", clipped))
-- 
2.43.0


From 6b5b6d89ea8601a670962dbfaacc1b03cf0b82a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 008/155] fix: three-character byte order marks were not
 stripped

---
 DHParser/parse.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0c3de34..276f548 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2006,7 +2006,6 @@ class Grammar:
             self.text__ = document[3:]
         else:
             self.text__ = document
-        self.text__ = document[1:] if document[0:1] in ('\ufeff', '\uffef') else document
         self.document__ = StringView(self.text__)
         self.document_length__ = len(self.document__)
         self._document_lbreaks__ = linebreaks(self.text__) if self.history_tracking__ else []
-- 
2.43.0


From e32b5c6ae013508ce67e522f40df63958dc986a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:38 +0000
Subject: [PATCH 009/155] fix: RuntimeError when parsing is aborted while
 captured variables are left

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 276f548..62dc82f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2041,13 +2041,13 @@ class Grammar:
                 result, location = parser(location)
             except ParserError as pe:
                 result, location = pe.node, L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From 489a56af0a941f819244c66a0aeecda9d822d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 010/155] fix: failure to match was reported as mere trailing
 whitespace for blank texts

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 62dc82f..927c906 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2062,8 +2062,8 @@ class Grammar:
 
             if location < L and (complete_match is True
                     or (complete_match is not False and
-                        re.fullmatch(getattr(self, complete_match),
-                                     self.text__[location:]) is None)):
+                        (result is None or re.fullmatch(getattr(self, complete_match),
+                                                        self.text__[location:]) is None))):
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
-- 
2.43.0


From 2b2607578fef3f07d0e0bb4ebcc4d9e306c9a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 011/155] fix: wrong position of nodes in which a mandatory
 item is missing

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 927c906..b113b7c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4471,7 +4471,7 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, ret_node.with_pos(location_),
+            raise ParserError(self, ret_node if ret_node._pos >= 0 else ret_node.with_pos(location),
                               location_ - location,
                               location, error, first_throw=True)
         return ret_node, location_
@@ -4596,7 +4596,7 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, nd.with_pos(location),
+            raise ParserError(self, nd if nd._pos >= 0 else nd.with_pos(location),
                               location_ - location,
                               location, error, first_throw=True)
         return nd, location_
-- 
2.43.0


From 2c9566f98773fb5c61804a2abbed36f4dfd3323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 012/155] fix: rest of the text lost after mandatory violation
 with recursive root-parser

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index b113b7c..deb8f24 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2040,7 +2040,7 @@ class Grammar:
             try:
                 result, location = parser(location)
             except ParserError as pe:
-                result, location = pe.node, L
+                result, location = pe.node, pe.location + pe.node_orig_len
                 self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
-- 
2.43.0


From 27d6f36bdbdc77382c0ce35621a60463d6ac8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:32 +0000
Subject: [PATCH 013/155] fix: error location and position of the unparsed rest
 were wrong if content had been dropped

---
 DHParser/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index deb8f24..8a49df1 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2064,6 +2064,7 @@ class Grammar:
                     or (complete_match is not False and
                         (result is None or re.fullmatch(getattr(self, complete_match),
                                                         self.text__[location:]) is None))):
+                stop_pos = location
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
@@ -2120,7 +2121,7 @@ class Grammar:
                         error_code = PARSER_LOOKAHEAD_MATCH_ONLY
                         max_parser_dropouts = -1  # no further retries!
                     else:
-                        i = self.ff_pos__ if self.ff_pos__ >= 0 else tail_pos(stitches)
+                        i = self.ff_pos__ if self.ff_pos__ >= 0 else stop_pos
                         err_pos = i
                         fs = self.document__[i:i + 10].replace('\n', '\\n')
                         if i + 10 < len(self.document__) - 1:  fs += '...'
@@ -2134,7 +2135,7 @@ class Grammar:
                              else " too often!" if self.max_parser_dropouts__ > 1 else " " +
                              "Terminating parser.")
                         error_code = PARSER_STOPPED_BEFORE_END
-                stitch = Node(ZOMBIE_TAG, skip).with_pos(tail_pos(stitches))
+                stitch = Node(ZOMBIE_TAG, skip).with_pos(stop_pos)
                 stitches.append(stitch)
                 if stitch.pos > 0:
                     if self.ff_pos__ > err_pos:
@@ -2168,8 +2169,7 @@ class Grammar:
                 location = L
         if stitches:
             if location < L:
-                stitches.append(Node(ZOMBIE_TAG, self.document__[location:])\
-                                .with_pos(tail_pos(stitches)))
+                stitches.append(Node(ZOMBIE_TAG, self.document__[location:]).with_pos(location))
             result = Node(ZOMBIE_TAG, tuple(stitches)).with_pos(0)
         if any(self.variables__.values()):
             # capture stack not empty will only be reported for root-parsers
-- 
2.43.0


From 65934a7a8ca2fc0aa5def25f33f0bb7f5ede092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 014/155] fix: text preceding a missing mandatory item at the
 end of the text was lost

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 8a49df1..01057a2 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -708,10 +708,11 @@ class Parser:
         elif grammar.tree__.errors[-1].code in \
                 (MANDATORY_CONTINUATION_AT_EOF, MANDATORY_CONTINUATION_AT_EOF_NON_ROOT):
             # try to create tree as faithful as possible
-            node = Node(self.node_name, pe.node).with_pos(location)
+            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
+            node = Node(self.node_name, result).with_pos(location)
         else:
             # fall through but skip the gap
-            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
+            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node
             raise pe.new_PE(node=Node(self.node_name, result).with_pos(location),
                             node_orig_len=pe.node_orig_len + gap,
                             location=location, first_throw=False)
-- 
2.43.0


From 0873c3b4d574d3fa66c93aab7b6a76aeccaa59a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 015/155] fix: AssertionError when parsing stops at a missing
 mandatory item right at the beginning

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 01057a2..0936432 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2069,7 +2069,7 @@ class Grammar:
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
-                if result is None or (result.name == ZOMBIE_TAG and len(result) == 0):
+                if result is None or (result.name == ZOMBIE_TAG and result.strlen() == 0):
                     err_pos = self.ff_pos__
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
                     if associated_symbol != self.ff_parser__:
-- 
2.43.0


From 9a38c00d48a586f0f298f1181aa8dc264f95091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 016/155] fix: uninitialized position of the tree of empty
 documents

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0936432..ffa35f7 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2022,6 +2022,8 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
             if result is None:
                 result = Node(ZOMBIE_TAG, '').with_pos(0)
                 if lookahead_failure_only(parser):
-- 
2.43.0


From 856434e8adcc44919ed69a2190cc6866772577f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 017/155] fix: errors of an empty document and of a failed
 parse in prefix-mode had no source location

---
 DHParser/nodetree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..c59b343 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3039,6 +3039,7 @@ class RootNode(Node):
             self.name = ZOMBIE_TAG
             self.with_pos(0)
             self.new_error(self, 'Parser did not match!', PARSER_STOPPED_BEFORE_END)
+            add_source_locations(self.errors, self.source_mapping)
             return self
         self._result = node._result
         self._children = node._children
@@ -3049,8 +3050,7 @@ class RootNode(Node):
         # self._content = node._content
         if id(node) in self.error_nodes:
             self.error_nodes[id(self)] = self.error_nodes[id(node)]
-        if self.source:
-            add_source_locations(self.errors, self.source_mapping)
+        add_source_locations(self.errors, self.source_mapping)
         return self
 
     def continue_with_data(self, data: Any):
@@ -3101,7 +3101,7 @@ class RootNode(Node):
         node = cast(Node, node)
         if node.pos <= error.pos <= node.pos + max(node.strlen(), 1):  # node.pos == error.pos:
             self.error_positions.setdefault(error.pos, set()).add(id(node))
-        if self.source:
+        if self.source or self.name != '__not_yet_ready__':
             add_source_locations([error], self.source_mapping)
         self.errors.append(error)
         self._error_set.add(error)
-- 
2.43.0


From 3b36ba01780f680aac92d3e9a35f77aac2e14335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 018/155] fix: memoized empty matches put the same node into
 the tree more than once

---
 DHParser/parse.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index ffa35f7..783e638 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -492,6 +492,17 @@ def is_grammar_placeholder(grammar: Optional['Grammar']) -> bool:
 ParsingResult: TypeAlias = Tuple[Optional[Node], int]
 MemoizationDict: TypeAlias = Dict[int, ParsingResult]
 
+
+def recall(visited: MemoizationDict, location: int) -> ParsingResult:
+    """Returns the memoized result for a location. In case of an empty match,
+    a copy of the node is returned, because empty matches can occur more than
+    once at the same place, but no node may appear in the tree more than once."""
+    node, next_location = visited[location]
+    if next_location == location and node is not None and node is not EMPTY_NODE:
+        return copy.deepcopy(node), next_location
+    return node, next_location
+
+
 ApplyFunc: TypeAlias = Callable[['Parser'], Optional[bool]]
 ParserTrail: TypeAlias = Tuple['Parser']
 ApplyToTrailFunc: TypeAlias = Callable[[ParserTrail], Optional[bool]]
@@ -752,7 +763,7 @@ class Parser:
                 if grammar.history_tracking__  and self._parse_proxy.__name__ == 'trace_history' \
                         and self._parse_proxy.__module__ == 'DHParser.trace':
                     return self._parse_proxy(-location or -INFINITE)  # a negative location signals a memo-hit
-                return visited[location]
+                return recall(visited, location)
 
             save_suspend_memoization = grammar.suspend_memoization__
             grammar.suspend_memoization__ = False
@@ -1035,7 +1046,7 @@ class LeafParser(Parser):
             visited = self.visited  # using local variable for better performance
             if location in visited:
                 # Sorry, no history recording in case of memoized results!
-                return visited[location]
+                return recall(visited, location)
 
             # now, the actual parser call!
             try:
@@ -5216,7 +5227,7 @@ class Forward(UnaryParser):
         visited = self.visited  # using local variable for better performance
         if location in visited:
             # Sorry, no history recording in case of memoized results!
-            return visited[location]
+            return recall(visited, location)
 
         if location in self.recursion_counter:
             depth = self.recursion_counter[location]
@@ -5391,7 +5402,7 @@ class Ref(LateBindingUnary):
         visited = self.visited  # using local variable for better performance
         if location in visited:
             # Sorry, no history recording in case of memoized results!
-            return visited[location]
+            return recall(visited, location)
 
         if location in self.recursion_counter:
             depth = self.recursion_counter[location]
-- 
2.43.0


From 3936a63b988f7200300682ecd59393e09875efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 019/155] fix: S-expressions with quotes, brackets, blanks or
 positions in content or attributes were not read back correctly

---
 DHParser/nodetree.py | 63 +++++++++++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index c59b343..1f8265c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -442,14 +442,9 @@ def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
     assert RX_IS_SXPR.match(sxpr)
     if threshold == 0:
         return sxpr
-    flat = re.sub(r'\s(?=\))', '', re.sub(r'\n\s*', ' ', sxpr)).strip()
-    l = flat.split('"')
-    if len(l) > 1:
-        for i in range(0, len(l), 2):
-            l[i] = re.sub(r'  +', ' ', l[i])
-        flat = '"'.join(l)
-    else:
-        flat =  re.sub(r'  +', ' ', flat)
+    # only whitespace outside of strings may be touched
+    flat = RX_SXPR_STRING_OR_GAP.sub(
+        lambda m: m.group('string') or (' ' if m.group('last') is None else ''), sxpr).strip()
     if len(flat) > threshold > 0:
         return sxpr.strip()
     return flat
@@ -525,6 +520,20 @@ NO_REFLOW = lambda tab, content, depth: content
 
 RX_CTRL_CHARS = re.compile(r'''[\x00-\x08\x0B-\x1F]''')
 
+RX_SXPR_STRING_OR_GAP = LazyRE(
+    r'''(?P<string>(?<![^\s()"'])(?:"{3}(?:.|\n)*?"{3}|'{3}(?:.|\n)*?'{3}|"[^"]*"|'[^']*'))'''
+    r'''|\s+(?P<last>(?=\)))|\s+''')
+
+
+def sxpr_string(strg: str) -> str:
+    """Encloses `strg` with those quotation marks that do not occur inside,
+    so that it can be read by :py:func:`parse_sxpr` unambiguously."""
+    if strg.find('"') < 0:  return f'"{strg}"'
+    if strg.find("'") < 0:  return f"'{strg}'"
+    if strg.find('"""') < 0 and strg[-1:] != '"':  return f'"""{strg}"""'
+    if strg.find("'''") < 0 and strg[-1:] != "'":  return f"'''{strg}'''"
+    return '"%s"' % strg.replace('"', r'\"')
+
 
 class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibility
     """
@@ -2004,8 +2013,9 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         inner_content: str = ""
 
         def attr(name: str, value: str):
-            if sxml:  return f' ({name} "{value}")'
-            else:  return f' `({name} "{value}")'
+            strg = f'"{value}"' if name == 'err' else sxpr_string(value)
+            if sxml:  return f' ({name} {strg})'
+            else:  return f' `({name} {strg})'
 
         def opening(node: Node) -> str:
             """Returns the opening string for the representation of `node`."""
@@ -2043,10 +2053,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
 
         def pretty(strg: str) -> str:
             """Encloses `strg` with the right kind of quotation marks."""
-            strg = subf(RX_CTRL_CHARS, ascii_char_code, strg)
-            return '"%s"' % strg if strg.find('"') < 0 \
-                else "'%s'" % strg if strg.find("'") < 0 \
-                else '"%s"' % strg.replace('"', r'\"')
+            return sxpr_string(subf(RX_CTRL_CHARS, ascii_char_code, strg))
 
         def reflow(tab: str, content: str, depth: int) -> str:
             if len(content) < reflow_col:
@@ -3303,6 +3310,9 @@ def reflow_as_oneliner(tree: Node,
 
 
 RX_SXPR_INNER_PARSER = LazyRE(r'[?]?[\w.:-]+')
+RX_SXPR_ATTR = LazyRE(
+    r'''\s*(?P<attr>[\w.:-]+)\s*(?P<value>"{3}(?:.|\n)*?"{3}|'{3}(?:.|\n)*?'{3}|"[^"]*"|'[^']*')\s*\)''')
+RX_SXPR_POS = LazyRE(r'''\s*pos\s+["']?(?:\d+[ :]+\d+ +)?(?P<pos>\d+)["']?\s*\)''')
 RX_SXPR_NOTEXT = LazyRE(r'(?:(?!\)).)*', re.DOTALL)
 RX_SXPR_TEXT = {qtmark: LazyRE(qtmark + r'.*?' + qtmark, re.DOTALL)
                 for qtmark in ['"""', "'''", '"', "'"]}
@@ -3346,7 +3356,12 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 k = 1
                 while level > 0:
                     if s[k] in ("'", '"'):
-                        k = s.find(str(s[k]), k + 1)
+                        qtmark = str(s[k])
+                        if s[k:k + 3] == 3 * qtmark:
+                            k = s.find(3 * qtmark, k + 3)
+                            if k >= 0:  k += 2
+                        else:
+                            k = s.find(qtmark, k + 1)
                     if k < 0:
                         raise IndexError()
                     if s[k] == '(':
@@ -3369,6 +3384,19 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
         pos: int = -1
         L: int = len(attr_start)
         while sxpr[:L] == attr_start:
+            match = sxpr[L:].match(RX_SXPR_ATTR)
+            if match and not (L == 1 and match.group('attr') == 'pos'):
+                value = match.group('value')
+                q = 3 if len(value) >= 6 and value[:3] in ('"""', "'''") else 1
+                attributes[match.group('attr')] = value[q:-q]
+                sxpr = sxpr[L + sxpr[L:].index(match.end()):].strip()
+                continue
+            # read very special attribute pos, e.g. "(pos 3)" or "(pos line col  3)"
+            match = sxpr[L:].match(RX_SXPR_POS)
+            if match:
+                pos = int(match.group('pos'))
+                sxpr = sxpr[L + sxpr[L:].index(match.end()):].strip()
+                continue
             i = sxpr.find('"')
             k = sxpr.find(')')
             if k > i:
@@ -3377,11 +3405,8 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 i = k + 1
             if k < 0:
                 raise ValueError('Unbalanced parantheses in S-Expression: ' + str(sxpr))
-            # read very special attribute pos
-            if sxpr[L:L + 3] == "pos" and (L == 1 or 0 < k < i):
-                pos = int(str(sxpr[L + 3:k].strip(' \'"').split(' ')[0]))
             # ignore very special attribute err
-            elif sxpr[L:L + 3] == "err" and 0 <= sxpr.find('`', L + 3) < k:
+            if sxpr[L:L + 3] == "err" and 0 <= sxpr.find('`', L + 3) < k:
                 m = sxpr.find('(', L + 3)
                 while 0 <= m < k:
                     m = sxpr.find('(', k)
-- 
2.43.0


From 4f4a0dbaa951386149cf8c811d5a8eef64b7cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:07 +0000
Subject: [PATCH 020/155] fix: as_xml() inserted indentation into multi-line
 content of elements that must preserve whitespace

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 1f8265c..4fbd55e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1878,7 +1878,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                         i += 1
                     while k >= 0 and not lines[k]:
                         k -= 1
-                tb = usetab + (tab if reflow or not inline else '')
+                tb = '' if inline else usetab + tab
                 content = [usetab + head, tb] if hlf else [usetab + head]  # + tb?
                 for line in lines[i:k]:
                     content[-1] += line
-- 
2.43.0


From 13e7a44187bb3b25f19eb695ec808703edf9bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 021/155] fix: parse_xml() lost attributes in single quotes and
 attributes following a value that contains '>'

---
 DHParser/nodetree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 4fbd55e..0e27f08 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3494,7 +3494,7 @@ def parse_sxml(sxml: Union[str, StringView]) -> RootNode:
 
 
 RX_WHITESPACE_TAIL = LazyRE(r'\s*$')
-RX_XML_ATTRIBUTES = LazyRE(r'\s*(?P<attr>[\w:.-]+)\s*=\s*"(?P<value>.*?)"\s*')
+RX_XML_ATTRIBUTES = LazyRE(r'\s*(?P<attr>[\w:.-]+)\s*=\s*(?P<value>"[^"]*"|\'[^\']*\')\s*')
 RX_XML_SPECIAL_TAG = LazyRE(r'<(?![?!])')
 RX_XML_OPENING_TAG = LazyRE(r'<\s*(?P<tagname>[\w:.-]+)\s*')
 RX_XML_CLOSING_TAG = LazyRE(r'</\s*(?P<tagname>[\w:.-]+)\s*>')
@@ -3554,13 +3554,12 @@ def parse_xml(xml: Union[str, StringView],
         beginning after the end of the attr.
         """
         attributes = dict()  # type: Dict[str, Any]
-        eot = s.find('>')
         restart = 0
         for match in s.finditer(RX_XML_ATTRIBUTES):
-            if s.index(match.start()) >= eot:
-                break
+            if s.find('>', restart, s.index(match.start())) >= 0:
+                break  # end of tag. (">" is allowed inside attribute values, though.)
             d = match.groupdict()
-            attributes[d['attr']] = d['value']
+            attributes[d['attr']] = d['value'][1:-1]
             restart = s.index(match.end())
         return s[restart:], attributes
 
-- 
2.43.0


From 10876f641dd3e9ae405738c3cab49a666d9fca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:59 +0000
Subject: [PATCH 022/155] fix: parse_xml() dropped text following a processing
 instruction

---
 DHParser/nodetree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 0e27f08..cc168c5 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3579,6 +3579,9 @@ def parse_xml(xml: Union[str, StringView],
         view at the position of the next normal tag."""
         assert s[:2] in ('<!', '<?')
         assert s[:4] != '<!--'
+        if s[:2] == '<?':
+            k = s.find('?>')
+            if k >= 0:  return s[k + 2:]
         m = s.search(RX_XML_SPECIAL_TAG)
         i = s.index(m.start()) if m else len(s)
         k = s.rfind(">", end=i)
-- 
2.43.0


From ccb6c4c344d90c2449fdd005fbd0f2cd34a2590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 023/155] fix: Node.from_etree() dropped the attributes of
 elements with children

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index cc168c5..3af56fc 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2711,7 +2711,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                     children.append(Node(string_tag, el.tail))
             node = Node(restore_tag_name(et.tag), tuple(children))
         else:
-            node = Node(restore_tag_name(et.tag), et.text or '').with_attr(et.attrib)
+            node = Node(restore_tag_name(et.tag), et.text or '')
+        if et.attrib:  node.with_attr(et.attrib)
         return node
 
 
-- 
2.43.0


From 60837cb06abf3a49bdd216f25089124938f529da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 024/155] fix: nodes with a name ending with two underscores
 were lost when reading dictionary-flavored JSON

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 3af56fc..8a7adb9 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2457,7 +2457,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 content = result.get('content__', None)
                 if content is None:
                     result = tuple(Node.from_json_obj({k: v})
-                                   for k, v in result_iter if k[-2:] != '__')
+                                   for k, v in result_iter
+                                   if k not in ('pos__', 'attributes__'))
                 else:
                     result = content
             node = Node(name, result)
-- 
2.43.0


From ce9f15b4041f7f77af541803ae26fce456e441b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 025/155] fix: select_path() yielded paths that were changed
 afterwards, and ignored skip_subtree for siblings of the start-node

---
 DHParser/nodetree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 8a7adb9..45e9ff0 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4134,13 +4134,13 @@ def select_path_if(start_path: Path,
     def recursive(path) -> Iterator[Path]:
         nonlocal match_func, reverse, skip_func
         if match_func(path):
-            yield path
+            yield path.copy()
+        if skip_func(path):
+            return
         top = path[-1]
         child_iterator = reversed(top._children) if reverse else top._children
         for child in child_iterator:
-            child_path = path + [child]
-            if not skip_func(child_path):
-                yield from recursive(child_path)
+            yield from recursive(path + [child])
 
     path = start_path.copy()
     while path:
@@ -4152,7 +4152,7 @@ def select_path_if(start_path: Path,
         edge, delta = (0, -1) if reverse else (-1, 1)
         while path and node is path[-1]._children[edge]:
             if match_func(path):
-                yield path
+                yield path.copy()
             node = path.pop()
         if path:
             parent = path[-1]
-- 
2.43.0


From a71ae83a2bebfcc5133d368ccba8a1903509b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 026/155] fix: path_str() raised an AssertionError for any path

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 45e9ff0..302444e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3902,7 +3902,7 @@ def path_str(path: Path) -> str:
     """Returns the path as a pseudo filepath of tag-names."""
     tag_list = ['']
     for node in path:
-        assert not node.name.find('/'), 'path_str() not allowed for tag-names containing "/"!'
+        assert node.name.find('/') < 0, 'path_str() not allowed for tag-names containing "/"!'
         tag_list.append(node.name)
     if path[-1].children:
         tag_list.append('')
-- 
2.43.0


From ea0b5118a4efcc4e2eabac40089b0a3f2cfcc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:09 +0000
Subject: [PATCH 027/155] fix: foregoing_str(path, 0) returned the complete
 preceding text

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 302444e..1f1b5b6 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4103,7 +4103,7 @@ def foregoing_str(path: Path, length: int = -1) -> str:
         N += len(s)
         trl = prev_path(trl)
     foregoing = ''.join(reversed(l))
-    return foregoing if length < 0 else foregoing[-length:]
+    return foregoing if length < 0 else foregoing[max(0, len(foregoing) - length):]
 
 
 def ensuing_str(path: Path, length: int = -1) -> str:
-- 
2.43.0


From b54ed3dc8baf1d364d19f6a0e20ac9c5b1879b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 028/155] fix: milestone_segment() lost content if a milestone
 was the first or last child of the common ancestor

---
 DHParser/nodetree.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 1f1b5b6..e707434 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1598,22 +1598,19 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             if a != b:
                 break
             common_ancestor = a
-        left = cut(pathA[pathA.index(common_ancestor):], left_cut)  # type: Node
-        right = cut(pathB[pathB.index(common_ancestor):], right_cut)  # type: Node
-        left_children = left._children    # type: Tuple[Node, ...]
-        right_children = right._children  # type: Tuple[Node, ...]
-        if left_children == right_children:
+        ia = pathA.index(common_ancestor)
+        ib = pathB.index(common_ancestor)
+        if ia + 1 == len(pathA) or ib + 1 == len(pathB):
             return common_ancestor
-        i = 1  # type: int
-        k = len(right_children)  # type: int
-        try:
-            k = right_children.index(left_children[1]) - 1
-            i = 2
-            while left_children[i] == right_children[k + i]:
-                i += 1
-        except (IndexError, ValueError):
-            pass
-        new_ca = Node(common_ancestor.name, left_children[:i] + right_children[k + i:])
+        i = index(common_ancestor, pathA[ia + 1])
+        k = index(common_ancestor, pathB[ib + 1])
+        left = cut(pathA[ia + 1:], left_cut)  # type: Node
+        right = cut(pathB[ib + 1:], right_cut)  # type: Node
+        children = common_ancestor._children  # type: Tuple[Node, ...]
+        segment = (left,) + children[i + 1:k] + (right,)  # type: Tuple[Node, ...]
+        if segment == children:
+            return common_ancestor
+        new_ca = Node(common_ancestor.name, segment)
         if common_ancestor.has_attr():
             new_ca.attr = common_ancestor.attr
         return new_ca
-- 
2.43.0


From 634abb8f4373f1971373987606c919875ec6b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 029/155] fix: add_token() and remove_token() confused tokens
 with parts of other tokens

---
 DHParser/nodetree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index e707434..02c40d7 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3812,8 +3812,10 @@ def add_token(token_sequence: str, token: str) -> str:
         >>> add_token('red thin', 'stroked red')
         'red thin stroked'
     """
-    for tk in token.split(' '):
-        if tk and token_sequence.find(tk) < 0:
+    present = set(token_sequence.split())
+    for tk in token.split():
+        if tk not in present:
+            present.add(tk)
             token_sequence += ' ' + tk
     return token_sequence.lstrip()
 
@@ -3829,9 +3831,8 @@ def remove_token(token_sequence, token: str) -> str:
         >>> remove_token('red thin stroked', 'blue stroked')
         'red thin'
     """
-    for tk in token.split(' '):
-        token_sequence = token_sequence.replace(tk, '').strip().replace('  ', ' ')
-    return token_sequence
+    removal = set(token.split())
+    return ' '.join(tk for tk in token_sequence.split() if tk not in removal)
 
 
 def eq_tokens(token_sequence1: str, token_sequence2: str) -> bool:
-- 
2.43.0


From 6f2f9c1bd660aa6859deafa25295f0cd60398b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 030/155] fix: Node.repr was not executable for content with
 quotes or linebreaks and omitted the children's attributes

---
 DHParser/nodetree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 02c40d7..4c844f1 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -670,7 +670,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         return self.content
 
     def __repr__(self):
-        rarg = ("'%s'" % str(self)) if not self._children else \
+        rarg = repr(self.content) if not self._children else \
             "(" + ", ".join(child.__repr__() for child in self._children) + ")"
         return "Node('%s', %s)" % (self.name, rarg)
 
@@ -679,7 +679,9 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         """Return a full (re-)executable representation of `self` including
         attributes and position value.
         """
-        rep = [repr(self)]
+        rarg = repr(self.content) if not self._children else \
+            "(" + ", ".join(child.repr for child in self._children) + ")"
+        rep = ["Node('%s', %s)" % (self.name, rarg)]
         if self.has_attr():
             rep.append('.with_attr(%s)' % repr(dict(self.attr)))
         if self._pos >= 0:
-- 
2.43.0


From 6aea37f1e0c28c5a3c0106ab80acde1783c10301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 031/155] fix: transfer_errors() registered the
 destination-node at the positions of all errors

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 4c844f1..8013579 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3189,8 +3189,9 @@ class RootNode(Node):
             self.error_nodes.setdefault(destId, []).extend(errorList)
             del self.error_nodes[srcId]
             for nodeSet in self.error_positions.values():
-                nodeSet.discard(srcId)
-                nodeSet.add(destId)
+                if srcId in nodeSet:
+                    nodeSet.discard(srcId)
+                    nodeSet.add(destId)
 
     @property
     def errors_sorted(self) -> List[Error]:
-- 
2.43.0


From f187ea5d935355f90101d702fdf5de059b284a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 032/155] fix: errors of connected nodes were attributed to
 other nodes, too, and copies of trees shared error-objects with the original

---
 DHParser/nodetree.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 8013579..76fa822 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2984,7 +2984,9 @@ class RootNode(Node):
             # duplicate._attributes = copy.deepcopy(self._attributes)  # this is blocked by cython
         duplicate.errors = copy.deepcopy(self.errors, memodict)
         duplicate._error_set = {error for error in duplicate.errors}
-        duplicate.error_nodes = {map_id.get(i, i): el[:] for i, el in self.error_nodes.items()}
+        map_err = {id(old): new for old, new in zip(self.errors, duplicate.errors)}
+        duplicate.error_nodes = {map_id.get(i, i): [map_err.get(id(e), e) for e in el]
+                                 for i, el in self.error_nodes.items()}
         duplicate.error_positions = {pos: {map_id.get(i, i) for i in s}
                                      for pos, s in self.error_positions.items()}
         duplicate.source = self.source
@@ -3056,8 +3058,7 @@ class RootNode(Node):
         if node.has_attr():
             self._attributes = node._attributes
         # self._content = node._content
-        if id(node) in self.error_nodes:
-            self.error_nodes[id(self)] = self.error_nodes[id(node)]
+        self.transfer_errors(node, self)
         add_source_locations(self.errors, self.source_mapping)
         return self
 
@@ -3161,14 +3162,15 @@ class RootNode(Node):
         for pos, ids in self.error_positions.items():   # TODO: use bisect here...
             if start_pos <= pos < end_pos:
                 error_node_ids.update(ids)
+        connected: Set[int] = set()  # ids of all nodes that are still connected to the tree
         for nid in error_node_ids:
             if nid == node_id:
                 # add the node's errors
                 errors.extend(self.error_nodes[nid])
             elif node._children:
-                for _ in node.select_if(lambda n: id(n) == nid):
-                    break
-                else:
+                if not connected:
+                    connected = {id(nd) for nd in self.walk_tree(include_root=True)}
+                if nid not in connected:
                     # node is not connected to the tree anymore, but since errors
                     # should not get lost, display its errors on its parent
                     errors.extend(self.error_nodes[nid])
-- 
2.43.0


From 8470215765d04dc037d74daf2f95149f2f32b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 033/155] fix: ContentMapping.get_node_index() did not find
 nodes the first or last leaf of which has not been selected

---
 DHParser/nodetree.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 76fa822..9e7226f 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5402,18 +5402,12 @@ class ContentMapping:
         """
         if node is None:
             return -1
-        if reverse:
-            while node.children:
-                node = node.children[-1]
-            for i in range(len(self._path_list) - 1, -1, -1):
-                if self._path_list[i][-1] == node:
-                    return i
-        else:
-            while node.children:
-                node = node.children[0]
-            for i in range(len(self._path_list)):
-                if self._path_list[i][-1] == node:
-                    return i
+        # node need not be the last node in the path, and some or all of its
+        # leaves may be missing in the mapping, because they have not been selected
+        indices = range(len(self._path_list))
+        for i in (reversed(indices) if reverse else indices):
+            if node in self._path_list[i]:
+                return i
         return -1
 
     def get_node_position(self, node: Node, reverse: bool=False) -> int:
-- 
2.43.0


From aebe4f2fe556fea47aeca1db698983200458bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 034/155] fix: rebuilding a content mapping yielded wrong
 content if the text of the last leaf had changed

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 9e7226f..882252e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5636,7 +5636,8 @@ class ContentMapping:
         content, offsets, paths = self._generate_mapping(common_ancestor, stump)
         assert offsets[0] == 0
         start_pos = self._pos_list[first_index]
-        end_pos = self._pos_list[last_index] + self._path_list[last_index][-1].strlen()
+        # the length of the leaf at last_index might have changed in the meantime!
+        end_pos = self._pos_list[last_index + 1] if last_index < last else len(self.content)
         offsets = [offset + start_pos for offset in offsets]
         if stump:  paths = [stump + path for path in paths]
 
-- 
2.43.0


From 745ccd421b16591399bf7993164594e126b10813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 035/155] fix: content mapping was not updated after the
 insertion of nodes, and markup() changed the attribute-dictionary passed to
 it

---
 DHParser/nodetree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 882252e..5f5cf45 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5626,6 +5626,10 @@ class ContentMapping:
         end_path = self._path_list[last_index]
         common_ancestor, i = find_common_ancestor(start_path, end_path)
         assert common_ancestor
+        if 0 < i == len(start_path) - 1:
+            # a single leaf might have been replaced or received new siblings
+            i -= 1
+            common_ancestor = start_path[i]
         while first_index > 0 and self._path_list[first_index - 1][i:i + 1] == [common_ancestor]:
             first_index -= 1
         last = len(self._path_list) - 1
@@ -5801,7 +5805,7 @@ class ContentMapping:
         assert not attr_dict or (len(attr_dict) == 1 and isinstance(attr_dict[0], Dict)), \
             f'{attr_dict} is not a valid attribute-dictionary!'
         assert end_pos >= start_pos
-        attr_dict = attr_dict[0] if attr_dict else {}
+        attr_dict = dict(attr_dict[0]) if attr_dict else {}
         attr_dict.update(attributes)
         if start_pos == end_pos:
             milestone = Node(name, '').with_attr(attr_dict)
-- 
2.43.0


From a4e5dead115e9c53ec628dd23da62aa35b076c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 036/155] fix: markup covered too much or too little text if
 the selection of leaves depends on their ancestors; inserting a node dropped
 the attributes of the split leaf

---
 DHParser/nodetree.py | 57 +++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 5f5cf45..f1d56a5 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2743,6 +2743,14 @@ def content_of(segment: Union[Node, Tuple[Node, ...], StringView, str],
     return ''.join(content_list)
 
 
+def _relative_to(prefix: Path, path_func: PathMatchFunction) -> PathMatchFunction:
+    """Returns a path-match-function for paths that start below ``prefix`` which
+    yields the same result as ``path_func`` does for the complete path."""
+    if not prefix or path_func in (ANY_PATH, LEAF_PATH, NO_PATH):
+        return path_func
+    return lambda path: path_func(prefix + path)
+
+
 def _strlen_of(segment: Union[Node, Sequence[Node]],
               match_func: PathMatchFunction = LEAF_PATH,
               skip_func: PathMatchFunction = NO_PATH) -> int:
@@ -4476,7 +4484,11 @@ def insert_node(leaf_path: Path, rel_pos: int, node: Node,
             return parent
         if leaf.name not in divisible_leaves:
             raise ValueError(f'Node "{leaf.name}" is not divisible!')
-        parent.result = parent.children[:i] + split_leaf(leaf, node) + parent.children[i + 1:]
+        pred, node, succ = split_leaf(leaf, node)
+        if leaf.has_attr():
+            pred.with_attr(leaf.attr)
+            succ.with_attr(leaf.attr)
+        parent.result = parent.children[:i] + (pred, node, succ) + parent.children[i + 1:]
         return parent
     else:
         if rel_pos == 0:
@@ -4723,11 +4735,13 @@ def deep_split(path: Path, i: cython.int,
         if chain_attr_name:  chain_attr = {chain_attr_name: gen_chain_ID()}
         i = split_node(node, parent, i, left_biased, chain_attr)
         if greedy and idx < last_index:
+            prefix = path[:last_index - idx + 1]
+            match, skip = _relative_to(prefix, match_func), _relative_to(prefix, skip_func)
             if left_biased:
-                if i > 0 and _strlen_of(parent.children[:i], match_func, skip_func) == 0:  i = 0
+                if i > 0 and _strlen_of(parent.children[:i], match, skip) == 0:  i = 0
             else:
                 L = len(parent.children)
-                if i < L and _strlen_of(parent.children[i:], match_func, skip_func) == 0:  i = L
+                if i < L and _strlen_of(parent.children[i:], match, skip) == 0:  i = L
     return i
 
 
@@ -4809,11 +4823,13 @@ def can_split(t: Path, i: cython.int, left_biased: bool = True, greedy: bool = T
         parent = t[-k - 2]
         i = split_node(node, parent, i, left_biased)
         if greedy:
+            prefix = t[:-k - 1]
+            match, skip = _relative_to(prefix, match_func), _relative_to(prefix, skip_func)
             if left_biased:
-                if i > 0 and _strlen_of(parent.children[:i], match_func, skip_func) == 0:  i = 0
+                if i > 0 and _strlen_of(parent.children[:i], match, skip) == 0:  i = 0
             else:
                 L = len(parent.children)
-                if i < L and _strlen_of(parent.children[i:], match_func, skip_func) == 0:  i = L
+                if i < L and _strlen_of(parent.children[i:], match, skip) == 0:  i = L
     else:
         # node = t[0]
         k += 1
@@ -4917,7 +4933,8 @@ def markup_right(path: Path, i: cython.int, name: str, attr_dict: Dict[str, Any]
     assert path
     k = max(can_split(path, i, True, greedy, match_func, skip_func, divisible) - 1, -len(path))
     # k is parent-index of first node to split
-    i = deep_split(path[k:], i, True, greedy, match_func, skip_func, chain_attr_name)
+    i = deep_split(path[k:], i, True, greedy, _relative_to(path[:k], match_func),
+                   _relative_to(path[:k], skip_func), chain_attr_name)
 
     if chain_attr_name and chain_attr_name not in attr_dict:
         attr_dict[chain_attr_name] = gen_chain_ID()
@@ -5022,7 +5039,8 @@ def markup_left(path: Path, i: cython.int, name: str, attr_dict: Dict[str, Any],
     """
     assert path
     k = max(can_split(path, i, False, greedy, match_func, skip_func, divisible) - 1, -len(path))
-    i = deep_split(path[k:], i, False, greedy, match_func, skip_func, chain_attr_name)
+    i = deep_split(path[k:], i, False, greedy, _relative_to(path[:k], match_func),
+                   _relative_to(path[:k], skip_func), chain_attr_name)
 
     if chain_attr_name and chain_attr_name not in attr_dict:
         attr_dict[chain_attr_name] = gen_chain_ID()
@@ -5852,20 +5870,25 @@ class ContentMapping:
 
         stump_A = path_A[i:]
         stump_B = path_B[i:]
+        # stumps start with the common ancestor, branches with a child of the common ancestor
+        stump_select = _relative_to(path_A[:i], self.select_func)
+        stump_ignore = _relative_to(path_A[:i], self.ignore_func)
+        branch_select = _relative_to(path_A[:i + 1], self.select_func)
+        branch_ignore = _relative_to(path_A[:i + 1], self.ignore_func)
 
         q = can_split(
-            stump_A, pos_A, False, self.greedy, self.select_func, self.ignore_func, divisible)
+            stump_A, pos_A, False, self.greedy, stump_select, stump_ignore, divisible)
         r = can_split(
-            stump_B, pos_B, True, self.greedy, self.select_func, self.ignore_func, divisible)
+            stump_B, pos_B, True, self.greedy, stump_select, stump_ignore, divisible)
 
         i = -1
         k = -1
         if q < abs(q) == len(stump_A) - 1:
-            i = deep_split(stump_A, pos_A, False, self.greedy, self.select_func,
-                           self.ignore_func, self.chain_attr_name)
+            i = deep_split(stump_A, pos_A, False, self.greedy, stump_select,
+                           stump_ignore, self.chain_attr_name)
         if r < abs(r) == len(stump_B) - 1:
-            k = deep_split(stump_B, pos_B, True, self.greedy, self.select_func,
-                           self.ignore_func, self.chain_attr_name)
+            k = deep_split(stump_B, pos_B, True, self.greedy, stump_select,
+                           stump_ignore, self.chain_attr_name)
 
         if i >= 0 and k >= 0:
             attr_dict.pop(self.chain_attr_name, None)
@@ -5877,7 +5900,7 @@ class ContentMapping:
             nd = Node(name, common_ancestor[i:t]).with_attr(attr_dict)
             nd._pos = common_ancestor[i]._pos
             markup_left(stump_B[1:], pos_B, name, attr_dict,
-                        self.greedy, self.select_func, self.ignore_func,
+                        self.greedy, branch_select, branch_ignore,
                         divisible, self.chain_attr_name)
             common_ancestor.result = common_ancestor[:i] + (nd,) + common_ancestor[t:]
         elif k >= 0:
@@ -5885,17 +5908,17 @@ class ContentMapping:
             nd = Node(name, common_ancestor[t + 1:k]).with_attr(attr_dict)
             nd._pos = common_ancestor[t + 1]._pos
             markup_right(stump_A[1:], pos_A, name, attr_dict,
-                         self.greedy, self.select_func, self.ignore_func,
+                         self.greedy, branch_select, branch_ignore,
                          divisible, self.chain_attr_name)
             common_ancestor.result = common_ancestor[:t + 1] + (nd,) + common_ancestor[k:]
         else:
             t = common_ancestor.index(stump_A[1])
             u = common_ancestor.index(stump_B[1])
             markup_right(stump_A[1:], pos_A, name, attr_dict,
-                         self.greedy, self.select_func, self.ignore_func,
+                         self.greedy, branch_select, branch_ignore,
                          divisible, self.chain_attr_name)
             markup_left(stump_B[1:], pos_B, name, attr_dict,
-                        self.greedy, self.select_func, self.ignore_func,
+                        self.greedy, branch_select, branch_ignore,
                         divisible, self.chain_attr_name)
             if u - t > 1:
                 nd = Node(name, common_ancestor[t + 1:u]).with_attr(attr_dict)
-- 
2.43.0


From 81fc69fc4320e450d39f658d0a57f424676eeb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 037/155] fix: merge_connected() did not merge across
 neighbouring delimiters that had been renamed

---
 DHParser/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..1ed9c42 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1450,6 +1450,8 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
     ATTENTION: The condition to identify content nodes and the condition to
     identify delimiter nodes must never come true for one and the same node!!!
     """
+    # remember the delimiters, because they might not be recognized anymore after being renamed
+    delimiters = {id(nd) for nd in path[-1]._children if delimiter(path + [nd])}
     # first, merge all delimiters
     if swallow is None:
         merge_adjacent(path, delimiter, delimiter_name)
@@ -1466,9 +1468,9 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
                 # initial = () if children[i]._children else ''
                 k = i
                 i += 1
-                while i < L and (content(path + [children[i]]) or delimiter(path + [children[i]])):
+                while i < L and (content(path + [children[i]]) or id(children[i]) in delimiters):
                     i += 1
-                if delimiter(path + [children[i - 1]]):
+                if id(children[i - 1]) in delimiters:
                     i -= 1
                 if i > k:
                     adjacent = children[k:i]
-- 
2.43.0


From cf8eef4e81130df7b4d1040c65a18ed6cf928c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 038/155] fix: expand_table() raised a TypeError instead of
 reporting a duplicate key inside a tuple of keys

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..0f0219f 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1476,7 +1476,7 @@ def expand_table(compact_table: Dict) -> Dict:
         value = compact_table[key]
         for k in smart_list(key):
             if k in expanded_table:
-                raise KeyError('Key "%s" used more than once in compact table!' % key)
+                raise KeyError('Key "%s" used more than once in compact table!' % str(k))
             expanded_table[k] = value
     return expanded_table
 
-- 
2.43.0


From 58d4f3bb7e78a1ea9b4b9de9584cb6d83002abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 039/155] fix: traverse() failed if the entry for '>' in the
 table was a tuple

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 1ed9c42..4af0661 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -435,7 +435,7 @@ def traverse(tree: Node,
             filters, pre = split_filter(table.get('<', []))
             assert BLOCK_CHILDREN not in filters
             more_filters, main = split_filter(table.get(key, table.get('*', [])))
-            post = table.get('>', [])
+            post = list(table.get('>', []))
             assert not any(isinstance(callable, Filter) for callable in post)
             sequence = pre + main + post
             all_filters = filters + more_filters
-- 
2.43.0


From 0a9cfd8c2604693feb962cffc1b7e7634183d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 040/155] fix: traverse() ignored the filters (BLOCK_CHILDREN
 etc.) of an entry for the first node it was applied to

---
 DHParser/transform.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 4af0661..8db6a36 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -438,10 +438,10 @@ def traverse(tree: Node,
             post = list(table.get('>', []))
             assert not any(isinstance(callable, Filter) for callable in post)
             sequence = pre + main + post
-            all_filters = filters + more_filters
-            if BLOCK_CHILDREN in all_filters:
-                all_filters = [BLOCK_CHILDREN]
-            cache[key] = (all_filters, sequence)
+            filters = filters + more_filters
+            if BLOCK_CHILDREN in filters:
+                filters = [BLOCK_CHILDREN]
+            cache[key] = (filters, sequence)
 
         children = node._children
         for filter in filters:
-- 
2.43.0


From 3b7a01eb436a4206c71e4df6e91f44265d5b2921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 041/155] fix: is_single_child() failed on the root-node

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 8db6a36..b026ffb 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -673,7 +673,7 @@ def three_valued(path: Path, cond_true: CondFunc, cond_false: CondFunc) -> Optio
 
 def is_single_child(path: Path) -> bool:
     """Returns ``True`` if the current node does not have any siblings."""
-    return len(path[-2]._children) == 1
+    return len(path) < 2 or len(path[-2]._children) == 1
 
 
 # TODO: ambiguous: named, tagging...
-- 
2.43.0


From 4a6751adb7b412c73438b5e96358e98a3035c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 042/155] fix: name_matches() and content_matches() accepted
 strings that match the regular expression only partly

---
 DHParser/transform.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index b026ffb..8d00b56 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -759,9 +759,7 @@ def name_matches(path: Path, regexp: str) -> bool:
     Returns true, if the node's name matches the regular
     expression `regexp` completely. For example, ':.*' matches all anonymous nodes.
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].name))
+    return bool(re.fullmatch(regexp, path[-1].name))
 
 
 @transformation_factory
@@ -772,9 +770,7 @@ def content_matches(path: Path, regexp: str) -> bool:
     In contrast to ``re.match`` the regular expression must match the complete
     string and not just the beginning of the string to succeed!
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].content))
+    return bool(re.fullmatch(regexp, path[-1].content))
 
 
 @transformation_factory
-- 
2.43.0


From c4e134c7a2576d3a7b30f535b5b3eed2960f3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 043/155] fix: has_ancestor() considered the last node of the
 path as its own ancestor, unless generations was restricted

---
 DHParser/transform.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 8d00b56..6b15dcf 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -817,19 +817,15 @@ def has_ancestor(path: Path,
         from searching further, even if the `generations`-parameter would
         allow a deeper search.
     """
-    if until:
-        if isinstance(until, str):  until = {until}
-        for i in range(len(path) - 1, -1, -1):
-            if path[i].name in until:
-                break
-        trl = path[i:]
-    else:
-        trl = path
-    if generations <= 0:
-        return any(nd.name in name_set for nd in trl)
-    for i in range(2, min(generations + 2, len(trl) + 1)):
-        if trl[-i].name in name_set:
+    if isinstance(until, str):  until = {until} if until else frozenset()
+    ancestors = path[-2::-1]
+    if generations > 0:
+        ancestors = ancestors[:generations]
+    for nd in ancestors:
+        if nd.name in name_set:
             return True
+        if nd.name in until:
+            break
     return False
 
 
-- 
2.43.0


From c08e2745d8bd693f5ba89c9130e9ab6f640f4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 044/155] fix: has_descendant() failed if called with
 generations=0, although this is documented as unrestricted

---
 DHParser/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 6b15dcf..aba30fa 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -857,7 +857,6 @@ def has_descendant(path: Path, name_set: AbstractSet[str],
         from searching further, even if the `generations`-parameter would
         allow a deeper search.
     """
-    assert generations != 0
     if until:
         if isinstance(until, str):  until = {until}
     else:
@@ -870,7 +869,7 @@ def has_descendant(path: Path, name_set: AbstractSet[str],
     for child in path[-1]._children:
         if child.name in name_set:
             return True
-        if (generations < 0 or generations > 1) \
+        if (generations <= 0 or generations > 1) \
                 and has_descendant(path + [child], name_set, generations - 1, until):
             return True
     return False
-- 
2.43.0


From 1d97b37a9b61cf321a325884f737284e9b874603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 045/155] fix: update_attr_unless() failed if only a single
 source-node was passed to it

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index aba30fa..5c9bf13 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -941,7 +941,7 @@ def update_attr_unless(dest: Node,
         update_attr(dest, src, root)
     else:
         if isinstance(src, Node):
-            src = (Node,)
+            src = (src,)
         src = tuple(s for s in src if not exclude([s]))
         update_attr(dest, src, root)
 
-- 
2.43.0


From 0b2b2e21b2b66aefb64043f84814c531571c1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 046/155] fix: assert_has_children failed on any node

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 5c9bf13..18efba5 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -2144,7 +2144,7 @@ def error_on(path: Path,
 #                                  WARNING)
 
 
-assert_has_children = error_on(lambda nd: nd._children, 'Element "%s" has no children')
+assert_has_children = error_on(neg(has_children), 'Element "{name}" has no children')
 
 
 @transformation_factory
-- 
2.43.0


From 7ed2ac804ee78adedc8d03e26a04ff83e1185f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 047/155] fix: replace_by_single_child() and
 reduce_single_child() stopped the transformation in case of conflicting
 attributes, although the precedence is documented

---
 DHParser/transform.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 18efba5..14944b6 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -901,11 +901,16 @@ def has_sibling(path: Path, name_set: AbstractSet[str]):
 #######################################################################
 
 
-def update_attr(dest: Node, src: Union[Node, Tuple[Node, ...]], root: Node):
+def update_attr(dest: Node, src: Union[Node, Tuple[Node, ...]], root: Node,
+                override: Optional[bool] = None):
     """
     Adds all attributes from `src` to `dest` and transfers all errors
     from `src` to `dest`. This is needed, in order to keep the attributes
     if the child node is going to be eliminated.
+
+    In case of conflicting attribute-values a ValueError is raised, unless
+    ``override`` is True (the values from `src` take precedence) or False
+    (the values from `dest` take precedence).
     """
     if isinstance(src, Node):
         src = (src,)
@@ -914,10 +919,13 @@ def update_attr(dest: Node, src: Union[Node, Tuple[Node, ...]], root: Node):
         if s != dest and hasattr(s, '_attributes'):
             for k, v in s.attr.items():
                 if k in dest.attr and v != dest.attr[k]:
-                    raise ValueError('Conflicting attribute values %s and %s for key %s '
-                                     'when merging or reducing %s to %s ! '
-                                     'Tree transformation stopped.'
-                                     % (v, dest.attr[k], k, str(src), str(dest)))
+                    if override is False:
+                        continue
+                    if override is None:
+                        raise ValueError('Conflicting attribute values %s and %s for key %s '
+                                         'when merging or reducing %s to %s ! '
+                                         'Tree transformation stopped.'
+                                         % (v, dest.attr[k], k, str(src), str(dest)))
                 dest.attr[k] = v
         # transfer errors
         try:
@@ -976,7 +984,7 @@ def _replace_by(node: Node, child: Node, root: Node):
     if not nd_tn or nd_tn[0] == ':' or (ch_tn and ch_tn[0] != ':'):
         node.name = ch_tn
     node._set_result(child._result)
-    update_attr(node, (child,), root)
+    update_attr(node, (child,), root, override=True)
 
 
 def _reduce_child(node: Node, child: Node, root: Node):
@@ -989,7 +997,7 @@ def _reduce_child(node: Node, child: Node, root: Node):
     '(i `(style "letter-spacing:.25pt") "m.")'
     """
     node._set_result(child._result)
-    update_attr(node, (child,), root)
+    update_attr(node, (child,), root, override=False)
     # update_attr(child, (node,), root)
     # if child.has_attr():
     #     node._attributes = child._attributes
-- 
2.43.0


From 3a3f72e1ce46d23589b17cc3cf7a0edbf1e70d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 048/155] fix: move_fringes() lost neighbouring nodes that
 could not be merged, moved nothing to the right if all children fulfill the
 condition, and left the merged node with a wrong position

---
 DHParser/transform.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 14944b6..846c377 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1510,10 +1510,12 @@ def merge_results(dest: Node, src: Tuple[Node, ...], root: Node) -> bool:
             result.extend(nd._children)
         result = fuse_anonymous_leaves(result)
         dest.result = tuple(result)
+        dest._pos = src[0]._pos
         update_attr(dest, src, root)
         return True
     elif not any(nd._children for nd in src):
         dest.result = ''.join(nd._result for nd in src)  # reduce(operator.add, (nd.content for nd in src[1:]), src[0].content)
+        dest._pos = src[0]._pos
         update_attr(dest, src, root)
         return True
     return False
@@ -1577,14 +1579,12 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
 
     a, b = 0, len(children)
     while a < b:
-        if condition(path + [children[a]]):
+        if side != "right" and condition(path + [children[a]]):
             a += 1
-        elif condition(path + [children[b - 1]]):
+        elif side != "left" and condition(path + [children[b - 1]]):
             b -= 1
         else:
             break
-    if side == "left":  b = len(children)
-    elif side == "right":  a = 0
     before = children[:a]
     after = children[b:]
     children = children[a:b]
@@ -1601,12 +1601,12 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
 
         # merge adjacent nodes that fulfil the condition
         if merge:
-            while a >= 0 and condition([parent_children[a]]):
+            while a >= 0 and condition(path[:-1] + [parent_children[a]]):
                 a -= 1
             prevN = parent_children[a + 1:i]
 
             N = len(parent_children)
-            while b < N and condition([parent_children[b]]):
+            while b < N and condition(path[:-1] + [parent_children[b]]):
                 b += 1
             nextN = parent_children[i + 1:b]
 
@@ -1614,13 +1614,19 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
                 target = before[-1] if before else prevN[0]
                 if merge_results(target, prevN + before, path[0]):
                     before = (target,)
-            before = before or prevN
+                else:
+                    before = prevN + before
+            else:
+                before = before or prevN
 
             if len(after) + len(nextN) > 1:
                 target = after[0] if after else nextN[-1]
                 if merge_results(target, after + nextN, path[0]):
                     after = (target,)
-            after = after or nextN
+                else:
+                    after = after + nextN
+            else:
+                after = after or nextN
 
         parent._set_result(parent_children[:a + 1] + before + (node,) + after + parent_children[b:])
 
-- 
2.43.0


From be1d8cb017d6c9512da38f0690b08089cae947b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 049/155] fix: merge_connected() merged all but one of several
 delimiters at the end of a content block if they are not to be merged with
 each other, and left swallowed nodes without a name

---
 DHParser/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 846c377..58550eb 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1469,13 +1469,13 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
                 i += 1
                 while i < L and (content(path + [children[i]]) or id(children[i]) in delimiters):
                     i += 1
-                if id(children[i - 1]) in delimiters:
+                while id(children[i - 1]) in delimiters:
                     i -= 1
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
                     if swallow is not None and swallow([head]):
-                        head = Node(content_name, '').with_pos(head._pos)
+                        head = Node(content_name or head.name, '').with_pos(head._pos)
                     elif content_name:
                         head.name = content_name
                     head.result = fuse(adjacent, swallow)  # reduce(operator.add, (nd.result for nd in adjacent), initial)
-- 
2.43.0


From 5769407fcee883d88170f4a1446b9bc309caffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 050/155] fix: replace_or_reduce() evaluated its condition for
 the parent instead of the child

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 58550eb..19eb67e 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1074,7 +1074,7 @@ def replace_or_reduce(path: Path, condition: CondFunc = is_named):
     node = path[-1]
     if len(node._children) == 1:
         child = node._children[0]
-        cond = condition(path)
+        cond = condition(path + [child])
         if cond:
             _replace_by(node, child, path[0])
         elif cond is not None:
-- 
2.43.0


From c132da9d70c133376c695efc98c5fcf6957dab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 051/155] fix: insert() and delimit_children() failed for trees
 without position-values

---
 DHParser/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 19eb67e..64b47a7 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -2083,7 +2083,8 @@ def insert(path: Path, position: PositionType, node_factory: CondFunc):
     pos_tuple = sorted(tuple((p if p >= 0 else (p + L)) for p in pos_tuple), reverse=True)
     for n in pos_tuple:
         n = min(L, n)
-        text_pos = (children[n - 1].pos + children[n - 1].strlen()) if n > 0 else node.pos
+        prev = children[n - 1] if n > 0 else None
+        text_pos = (prev._pos + prev.strlen()) if prev and prev._pos >= 0 else node._pos
         children.insert(n, node_factory().with_pos(text_pos))
     node.result = tuple(children)
 
-- 
2.43.0


From 6a53a6fb7c53fd8cac5dcf3135e506d339271163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 052/155] fix: move_fringes() did not adjust the position of a
 node the beginning of which had been moved to its parent

---
 DHParser/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 64b47a7..2118262 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1591,6 +1591,8 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
 
     if before or after:
         node._set_result(children)
+        if before and before[-1]._pos >= 0:
+            node._pos = before[-1]._pos + before[-1].strlen()
         parent_children = parent._children
         for i, child in enumerate(parent_children):
             if id(child) == id(node):
-- 
2.43.0


From b946a5402190f588955c16cd6e78d4e93fdcb311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:58 +0000
Subject: [PATCH 053/155] fix: merge_connected() did not terminate if
 delimiters are renamed to a name that qualifies as content

---
 DHParser/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 2118262..503175d 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1463,11 +1463,11 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
         i = 0
         L = len(children)
         while i < L:
-            if content(path + [children[i]]):
+            if id(children[i]) not in delimiters and content(path + [children[i]]):
                 # initial = () if children[i]._children else ''
                 k = i
                 i += 1
-                while i < L and (content(path + [children[i]]) or id(children[i]) in delimiters):
+                while i < L and (id(children[i]) in delimiters or content(path + [children[i]])):
                     i += 1
                 while id(children[i - 1]) in delimiters:
                     i -= 1
-- 
2.43.0


From 80763982c22e2d2839e3397e637c8d836a884e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 054/155] fix: merge_adjacent() and merge_connected() produced
 a node that contains itself if the first node is to be renamed to a name that
 is to be swallowed

---
 DHParser/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 503175d..2cb184c 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1413,11 +1413,12 @@ def merge_adjacent(path: Path,
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
+                    result = fuse(adjacent, swallow)
                     if swallow is not None and swallow([head]):
                         head = Node(preferred_name or head.name, '').with_pos(head._pos)
                     elif preferred_name and len(adjacent) > 1:
                         head.name = preferred_name
-                    head.result = fuse(adjacent, swallow)
+                    head.result = result
                     update_attr_unless(head, adjacent[1:], path[0], swallow)
                     new_result.append(head)
             else:
@@ -1474,11 +1475,12 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
+                    result = fuse(adjacent, swallow)
                     if swallow is not None and swallow([head]):
                         head = Node(content_name or head.name, '').with_pos(head._pos)
                     elif content_name:
                         head.name = content_name
-                    head.result = fuse(adjacent, swallow)  # reduce(operator.add, (nd.result for nd in adjacent), initial)
+                    head.result = result  # reduce(operator.add, (nd.result for nd in adjacent), initial)
                     update_attr_unless(head, adjacent[1:], path[0], swallow)
                     new_result.append(head)
             else:
-- 
2.43.0


From f8200724f7bb5c1495ad45a5ade9d45e605d49e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 055/155] fix: Grammar objects with a Forward-parser as root
 could not be created or deep-copied (AssertionError)

---
 DHParser/parse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 783e638..2127812 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1788,9 +1788,12 @@ class Grammar:
         # during testing and development this does not need to be the case.)
         if root:
             self.root_parser__ = copy.deepcopy(root)
-            if not self.root_parser__.pname:
-                self.root_parser__.name("root")
-            self.root_parser__.disposable = False
+            # Forward-parsers must not have a name, so it's the forwarded parser that counts
+            named_root = cast(Forward, self.root_parser__).parser \
+                if isinstance(self.root_parser__, Forward) else self.root_parser__
+            if not named_root.pname:
+                named_root.name("root")
+            named_root.disposable = False
             self.static_analysis_pending__ = [True]  # type: List[bool]
             self.static_analysis_errors__ = []       # type: List[AnalysisError]
         else:
-- 
2.43.0


From d5882ff33414d4ad6870de671ed501d3bc9868cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 056/155] fix: whether non-empty capture-stacks are reported as
 error depended on the beginning of the (first) document

---
 DHParser/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 2127812..3915afd 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4866,7 +4866,10 @@ class Capture(ContextSensitive):
     @property
     def can_capture_zero_length(self) -> bool:
         if self._can_capture_zero_length is None:
-            self._can_capture_zero_length = self.parser._parse(0)[0] is not None
+            # must neither depend on the document that has just been parsed nor
+            # interfere with the variables captured so far. So, use a fresh copy.
+            grammar = Grammar(self.parser, static_analysis=False)
+            self._can_capture_zero_length = grammar.root_parser__(0)[0] is not None
         return cast(bool, self._can_capture_zero_length)
 
     def _rollback(self):
-- 
2.43.0


From 00ad00134d668b61986569d82ad96d680245058d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 057/155] fix: history-tracking got lost when it was turned on
 after unsetting a cancel-query

---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 3915afd..3d29ea0 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2270,7 +2270,9 @@ class Grammar:
             for p in self.all_parsers__:
                 if isinstance(p, LeafParser):
                     if self.cancel_query__ is None:
-                        p.set_proxy(None)
+                        # don't remove tracers that have been set in the meantime
+                        if p._parse_proxy.__name__ == "cancel_proxy":
+                            p.set_proxy(None)
                     elif p._parse_proxy == p._parse:
                         p.set_proxy(cancel_proxy)
                     else:
-- 
2.43.0


From f0c3bf01aae3cd5c7d3011f0cf219f52a2dbbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 058/155] fix: variables captured by a failed parser stayed on
 the stack if no further parser was called

---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 3d29ea0..1f6a6ae 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -779,6 +779,10 @@ class Parser:
                 if location > grammar.ff_pos__:
                     grammar.ff_pos__ = location
                     grammar.ff_parser__ = self
+                # don't wait for the next parser-call (there might not be any!) to undo
+                # the variable changing operations of the failed parser
+                if location <= grammar.last_rb__loc__:
+                    grammar.rollback_to__(location)
             elif node is not EMPTY_NODE:
                 node._pos = location
 
-- 
2.43.0


From e709ac34ffe2a9de38a3a8a4b927f60339b50b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 059/155] fix: variables captured by a lookahead stayed on the
 stack if no further parser was called

---
 DHParser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1f6a6ae..1c6802d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4688,6 +4688,9 @@ class Lookahead(FlowParser):
     """
     def _parse(self, location: cython.int) -> ParsingResult:
         node, _ = self.parser(location)
+        # a lookahead must not have any lasting effects on the variables
+        if location <= self._grammar.last_rb__loc__:
+            self._grammar.rollback_to__(location)
         if self.match(node is not None):
             return (EMPTY_NODE if self.disposable else Node(self.node_name, '', True)), location
         else:
-- 
2.43.0


From 397b4f2acc3be31e71f5e75824acab5d32928c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 060/155] fix: the code of the error reporting a non-empty
 capture-stack was not deterministic

---
 DHParser/parse.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 1c6802d..f8ea1ee 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1181,21 +1181,26 @@ def is_parser_placeholder(parser: Optional[Parser]) -> bool:
 # functions for analysing the parser tree/graph ###
 
 
-def has_non_autocaptured_symbols(ptrail: ParserTrail) -> Optional[bool]:
-    """Returns True, if the parser-path contains a Capture-Parser that is not
-    shielded by a Retrieve-Parser. This is the case for captured symbols
-    that are not "auto-captured" by a Retrieve-Parser.
+def has_non_autocaptured_symbols(parser: Parser) -> bool:
+    """Returns True, if ``parser`` contains a Capture-Parser that can be reached
+    without passing through a Retrieve- or Pop-Parser. This is the case for captured
+    symbols that are not "auto-captured" by a Retrieve-Parser.
     """
-    for parser in ptrail:
-        if parser.ptype == ":Retrieve":
-            break
-        elif parser.ptype == ":Capture":
-            p = cast(UnaryParser, parser).parser
-            while p.ptype in (":Synonym", ":Forward"):
-                p = cast(UnaryParser, p).parser
-            if not isinstance(p, Retrieve):
+    visited: MutableSet[Parser] = set()
+
+    def find(p: Parser) -> bool:
+        if p in visited or isinstance(p, Retrieve):
+            return False
+        visited.add(p)
+        if isinstance(p, Capture):
+            inner = p.parser
+            while isinstance(inner, (Synonym, Forward)):
+                inner = inner.parser
+            if not isinstance(inner, Retrieve):
                 return True
-    return None
+        return any(find(sub_parser) for sub_parser in p.sub_parsers)
+
+    return find(parser)
 
 
 ########################################################################
@@ -2198,7 +2203,7 @@ class Grammar:
             error_msg = "Capture-stack not empty after end of parsing: " \
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
-            if parser.apply_to_trail(has_non_autocaptured_symbols):
+            if has_non_autocaptured_symbols(parser):
                 if all(cast(Capture, self[v]).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
-- 
2.43.0


From 0db46647d1ee4547f91b4294842cf3660b08971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 061/155] fix: history-tracking crashed with SyntaxError or
 TypeError in the analysis of failures for non-root-parsers

---
 DHParser/parse.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f8ea1ee..dc9aa33 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1975,21 +1975,20 @@ class Grammar:
                         return True
                     return False
 
-                try:
-                    return ((name in self
-                             and (isinstance(self[name], Lookahead)
-                                  or (isinstance(self[name], RegExp)
-                                      and self[name].regexp.pattern[0:3] in ('(?=', '(?!'))
-                                  or (isinstance(self[name], SmartRE)
-                                      and self[name].pattern[0:3] in ('(?=', '(?!'))))
-                            or (name[0] == ':' and issubclass(eval(name[1:]), Lookahead)))
-                except NameError:
-                    #  eval(name[1:]) failed, because custom parsers are not visible from here
-                    nonlocal parser
-                    parser.apply(functools.partial(find_parser_class, name=name[1:]))
-                    if custom_parser_class is not None:
-                        return issubclass(custom_parser_class, Lookahead)
+                if name in self and (isinstance(self[name], Lookahead)
+                                     or (isinstance(self[name], RegExp)
+                                         and self[name].regexp.pattern[0:3] in ('(?=', '(?!'))
+                                     or (isinstance(self[name], SmartRE)
+                                         and self[name].pattern[0:3] in ('(?=', '(?!'))):
+                    return True
+                if name[0:1] != ':':
                     return False
+                parser_class = globals().get(name[1:], None)
+                if parser_class is None:
+                    # custom parsers are not visible from here
+                    parser.apply(functools.partial(find_parser_class, name=name[1:]))
+                    parser_class = custom_parser_class
+                return isinstance(parser_class, type) and issubclass(parser_class, Lookahead)
 
             last_record = self.history__[-2] if len(self.history__) > 1 else None
             if last_record and parser != self.root_parser__:
-- 
2.43.0


From 53d2c5e4af3c27a85bca0b2879c8f8984de04e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:46 +0000
Subject: [PATCH 062/155] fix: grammars with recursive symbols that are not
 connected to the root-symbol or that are used as skip- or resume-rule could
 not be instantiated

---
 DHParser/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index dc9aa33..d0610e0 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1829,7 +1829,9 @@ class Grammar:
         for l in resume_lists:
             for i in range(len(l)):
                 if isinstance(l[i], Parser):
-                    p = self[l[i].pname]  # deep-copy and initialize with grammar-object
+                    # Forward-parsers must not have a name, so it's the forwarded parser that counts
+                    named_parser = l[i].parser if isinstance(l[i], Forward) else l[i]
+                    p = self[named_parser.pname]  # deep-copy and initialize with grammar-object
                     l[i] = p
                     if p not in root_connected:
                         self.unconnected_parsers__.add(p)
@@ -1869,7 +1871,10 @@ class Grammar:
         except KeyError:
             parser_template = getattr(self.__class__, key, None)
             if parser_template:
-                if key != parser_template.pname:
+                # Forward-parsers must not have a name, so it's the forwarded parser that counts
+                named_parser = cast(Forward, parser_template).parser \
+                    if isinstance(parser_template, Forward) else parser_template
+                if key != named_parser.pname:
                     raise AttributeError(
                         f'Illegal parser-name "{key}" for grammar {self.__class__.__name__}!')
                 # add parser to grammar-object on the fly...
-- 
2.43.0


From 80ec4806522da8b74eead05c224c13232f9f484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:21 +0000
Subject: [PATCH 063/155] fix: skip- and resume-parsers of a Grammar object
 were replaced by those of the most recently created object of the same class

---
 DHParser/parse.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d0610e0..a7561c8 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1821,12 +1821,10 @@ class Grammar:
         self.ff_parser__ = self.root_parser__
         self.unconnected_parsers__: MutableSet[Parser] = set()
         self.resume_parsers__: MutableSet[Parser] = set()
-        resume_lists = []
-        if hasattr(self, 'resume_rules__'):
-            resume_lists.extend(self.resume_rules__.values())
-        if hasattr(self, 'skip_rules__'):
-            resume_lists.extend(self.skip_rules__.values())
-        for l in resume_lists:
+        # copy the rules, because the parsers therein will be replaced by those of the instance
+        self.resume_rules__ = {sym: list(rules) for sym, rules in self.resume_rules__.items()}
+        self.skip_rules__ = {sym: list(rules) for sym, rules in self.skip_rules__.items()}
+        for l in [*self.resume_rules__.values(), *self.skip_rules__.values()]:
             for i in range(len(l)):
                 if isinstance(l[i], Parser):
                     # Forward-parsers must not have a name, so it's the forwarded parser that counts
-- 
2.43.0


From d5a12ee908621d9671dab5e6f05f7eab61d9d29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 064/155] fix: left-recursive symbols with more than one
 left-recursive alternative took exponential time

---
 DHParser/parse.pxd |  1 +
 DHParser/parse.py  | 37 +++++++++++++++++++++++++++++++++++--
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.pxd b/DHParser/parse.pxd
index d537b8f..ddc5ba8 100644
--- a/DHParser/parse.pxd
+++ b/DHParser/parse.pxd
@@ -56,6 +56,7 @@ cdef class Grammar:
     cdef bint _dirty_flag__
     cdef public bint history_tracking__
     cdef public bint suspend_memoization__
+    cdef public object suspend_reasons__
     cdef public bint flatten_tree__
     cdef public int max_parser_dropouts__
 #    cdef public object root_parser__  # do not uncomment this!!!
diff --git a/DHParser/parse.py b/DHParser/parse.py
index a7561c8..2a7bc8d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1899,6 +1899,9 @@ class Grammar:
         self.rollback__: List[Tuple[int, Callable]] = []
         self.last_rb__loc__: int = -2
         self.suspend_memoization__: bool = False
+        # reasons for suspending memoization that have come up since the innermost
+        # Forward-parser was called: left-recursive Forward-parsers or None for variables
+        self.suspend_reasons__: MutableSet[Optional[Parser]] = set()
         # support for call stack tracing
         self.call_stack__: List[CallItem] = []  # name, location
         # snapshots of call stacks
@@ -2312,6 +2315,7 @@ class Grammar:
         self.last_rb__loc__ = location
         # memoization must be suspended to allow recapturing of variables
         self.suspend_memoization__ = True
+        self.suspend_reasons__.add(None)
         # memoization will be turned back on again in Parser.__call__ after
         # the parser that called push_rollback__() has returned.
         # print("PUSH", self.document__[location:location+10].replace('\n', '\\n'), dict(self.variables__))
@@ -5194,6 +5198,10 @@ class Forward(UnaryParser):
             is needed to implement left recursion. The number of
             calls becomes irrelevant once a result has been memoized.
 
+    :ivar seeds:  Mapping of places to the last result of a left-recursive
+            parser that is still growing at this place. (Calculating this
+            result anew with every recursive call takes exponential time.)
+
     The Forward parser class contains an algorithm to handle left-recursive
     grammars. See it's __call__()-method. The algorithm handles direct and indirect
     left-recursion, but not interwoven left-recursion!
@@ -5208,6 +5216,7 @@ class Forward(UnaryParser):
     def reset(self):
         super(Forward, self).reset()
         self.recursion_counter: Dict[int, int] = dict()
+        self.seeds: MemoizationDict = dict()
         assert not self.pname, "Forward-Parsers mustn't have a name!"
 
     def __deepcopy__(self, memo):
@@ -5255,7 +5264,12 @@ class Forward(UnaryParser):
             depth = self.recursion_counter[location]
             if depth == 0:
                 grammar.suspend_memoization__ = True
+                grammar.suspend_reasons__.add(self)
                 result = None, location
+            elif location in self.seeds:
+                grammar.suspend_memoization__ = True
+                grammar.suspend_reasons__.add(self)
+                result = recall(self.seeds, location)
             else:
                 self.recursion_counter[location] = depth - 1
                 result = self.parser(location)
@@ -5264,6 +5278,8 @@ class Forward(UnaryParser):
             self.recursion_counter[location] = 0  # fail on the first recursion
             save_suspend_memoization = grammar.suspend_memoization__
             grammar.suspend_memoization__ = False
+            save_reasons = grammar.suspend_reasons__
+            grammar.suspend_reasons__ = set()
             history_pointer = len(grammar.history__)
 
             result = self.parser(location)
@@ -5276,6 +5292,12 @@ class Forward(UnaryParser):
                 depth = 1
                 while True:
                     self.recursion_counter[location] = depth
+                    # the variables that have been captured by a seed would be missed
+                    # when recalling it, and so would be its history
+                    if None in grammar.suspend_reasons__ or grammar.history_tracking__:
+                        self.seeds.pop(location, None)
+                    else:
+                        self.seeds[location] = result
                     grammar.suspend_memoization__ = False
                     rb_stack_size = len(grammar.rollback__)
                     grammar.history__ = grammar.history__[:history_pointer]
@@ -5287,7 +5309,11 @@ class Forward(UnaryParser):
                     # occurred. Big topic...)
                     # don't carry error/resumption-messages over to the next iteration
                     # grammar.most_recent_error__ = None
-                    next_result = self.parser(location)
+                    try:
+                        next_result = self.parser(location)
+                    except ParserError:
+                        self.seeds.pop(location, None)
+                        raise
 
                     # discard next_result if it is not the longest match and return
                     if next_result[1] <= result[1]:  # also true, if no match
@@ -5316,9 +5342,16 @@ class Forward(UnaryParser):
                     depth += 1
             # grammar.suspend_memoization__ = save_suspend_memoization \
             #     or location <= (grammar.last_rb__loc__ + int(text._len == result[1]._len))
+            self.seeds.pop(location, None)
             grammar.suspend_memoization__ = save_suspend_memoization  #  = is_context_sensitive(self.parser)
-            if not grammar.suspend_memoization__:
+            reasons = grammar.suspend_reasons__ - {None, self}
+            if reasons:
+                # the result depends on an enclosing left-recursion that is still growing
+                grammar.suspend_memoization__ = True
+                del self.recursion_counter[location]
+            elif not (save_suspend_memoization and None in save_reasons):
                 visited[location] = result
+            grammar.suspend_reasons__ = save_reasons | reasons
         return result
 
     def set_proxy(self, proxy: Optional[ParseFunc]):
-- 
2.43.0


From bb46d78bdf7a4c744fa7e0fae06caf2dd955a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:47 +0000
Subject: [PATCH 065/155] fix: an error while searching the reentry-point with
 a parser crashed with a ValueError

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 2a7bc8d..4a517f7 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -432,7 +432,7 @@ def reentry_point(rest: StringView,
                 _text = parser.grammar.document__[_location:]
             except ParserError as pe:
                 grammar.tree__.new_error(
-                    grammar.tree__,
+                    Node(ZOMBIE_TAG, '').with_pos(location),
                     f"Error while searching re-entry point with parser {parser}: {pe}",
                     ERROR_WHILE_RECOVERING_FROM_ERROR)
                 _node, _text = None, ''
-- 
2.43.0


From 5d7d73b443adf0f4ca2aae82d510406009d8470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 066/155] fix: strlen(), content and walk_tree() raised a
 RecursionError for deep (left-recursive) trees, even when called by the
 parser itself

---
 DHParser/nodetree.py | 56 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index f1d56a5..923fe3c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -691,10 +691,16 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
     def strlen(self) -> int:
         """Returns the length of the string-content of this node.
         Use len(node.children) for the number of children of this node!"""
-        if self._children:
-            return sum(child.strlen() for child in self._children)
-        else:
-            return len(self._result)
+        # iterative algorithm, because trees can be very deep
+        length = 0
+        stack = [self]
+        while stack:
+            nd = stack.pop()
+            if nd._children:
+                stack.extend(nd._children)
+            else:
+                length += len(nd._result)
+        return length
 
     def __len__(self):
         raise AssertionError(
@@ -823,13 +829,17 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         Returns string content as a list of string fragments
         that are gathered from all child nodes in order.
         """
-        if self._children:
-            fragments = []
-            for child in self._children:
-                fragments.extend(child._leaf_data())
-            return fragments
-        self._result = str(self._result)
-        return [self._result]
+        # iterative algorithm, because trees can be very deep
+        fragments = []
+        stack = [self]
+        while stack:
+            nd = stack.pop()
+            if nd._children:
+                stack.extend(reversed(nd._children))
+            else:
+                nd._result = str(nd._result)
+                fragments.append(nd._result)
+        return fragments
 
     @property
     def content(self) -> str:
@@ -839,10 +849,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         concatenated.
         """
         if self._children:
-            fragments = []
-            for child in self._children:
-                fragments.extend(child._leaf_data())
-            return ''.join(fragments)
+            return ''.join(self._leaf_data())
         self._result = str(self._result)
         return self._result
 
@@ -1240,17 +1247,18 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
 
     def walk_tree(self, include_root: bool = False, reverse: bool = False) -> Iterator[Node]:
         """Yields all nodes of the tree. (Faster than select())"""
-        def walk_recursive(nd: Node) -> Iterator[Node]:
-            nonlocal reverse
-            child_iterator = reversed(nd._children) if reverse else nd._children
-            for child in child_iterator:
-                yield child
-                if child._children:
-                    yield from walk_recursive(child)
-
         if include_root:
             yield self
-        yield from walk_recursive(self)
+        # iterative algorithm, because trees can be very deep
+        stack = [reversed(self._children) if reverse else iter(self._children)]
+        while stack:
+            for child in stack[-1]:
+                yield child
+                if child._children:
+                    stack.append(reversed(child._children) if reverse else iter(child._children))
+                    break
+            else:
+                stack.pop()
 
     def select_if(self, match_func: NodeMatchFunction,
                   include_root: bool = False, reverse: bool = False,
-- 
2.43.0


From 0aaf4ee912000f618879f0d39e0df4b51ec26d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 067/155] fix: text_pos() did not return the position of the
 given line and column

Contrary to line_col(), which counts lines and columns from 1 onward, text_pos()
was off by one or even by one line, and it returned wrong positions instead of -1
for lines beyond the end of the text.
---
 DHParser/toolkit.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 0f0219f..3197433 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1388,17 +1388,13 @@ def text_pos(text: Union[StringView, str],
     Returns the text-position for a given line and column or -1 if the line
     and column exceed the size of the text.
     """
-    if lbreaks:
-        try:
-            return lbreaks[line] + column - 1
-        except IndexError:
-            return -1
-    else:
-        i = 0
-        while line > 0 and i >= 0:
-            i = text.find('\n', i + 1)
-            line -= 1
-        return i + column - 1
+    if not lbreaks:
+        lbreaks = linebreaks(text)
+    if 0 < line < len(lbreaks) and column > 0:
+        i = lbreaks[line - 1] + column
+        if i <= lbreaks[line]:
+            return i
+    return -1
 
 
 #######################################################################
-- 
2.43.0


From 4094cce2c2b8fc6d889e0cd11b9c117d24c8077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 068/155] fix: Error.visualize() cut off the last character of
 the last line

---
 DHParser/error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/error.py b/DHParser/error.py
index 047b52d..e6cc3ca 100644
--- a/DHParser/error.py
+++ b/DHParser/error.py
@@ -385,6 +385,7 @@ class Error:
         occurred."""
         start = document.rfind('\n', 0, self.pos) + 1
         stop = document.find('\n', self.pos)
+        if stop < 0:  stop = len(document)
         return document[start:stop] + '\n' + ' ' * (self.pos - start) + '^\n'
 
     def signature(self) -> bytes:
-- 
2.43.0


From e3512981b68c964161a8d32a53876a1c15a9068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:43 +0000
Subject: [PATCH 069/155] fix: canonical_error_strings() rendered wrong
 locations

The line number was lost if the source has no file-name (UNKNOWN_FILE), part of the
location was lost or doubled if the file-name contains a colon, and the relative path started
with a path-separator (or was cut off in the middle of a directory name).
---
 DHParser/error.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/DHParser/error.py b/DHParser/error.py
index e6cc3ca..4f3b565 100644
--- a/DHParser/error.py
+++ b/DHParser/error.py
@@ -526,22 +526,14 @@ def canonical_error_strings(errors: List[Error]) -> List[str]:
     """Returns the list of error strings in canonical form that can be parsed by most
     editors, i.e. "relative filepath : line : column : severity (code) : error string"
     """
-    if errors:
-        error_strings = []
-        for err in errors:
-            source_file_name = err.orig_doc
-            if source_file_name and is_filename(source_file_name):
-                cwd = os.getcwd()
-                if source_file_name.startswith(cwd):
-                    rel_path = source_file_name[len(cwd):]
-                else:
-                    rel_path = source_file_name
-                err_str = str(err)
-                err_str = err_str[err_str.find(':'):]
-                error_strings.append(rel_path + err_str)
-            else:
-                error_strings.append(str(err))
-    else:
-        error_strings = []
+    error_strings = []
+    cwd = os.path.join(os.getcwd(), '')
+    for err in errors:
+        err_str = str(err)
+        if (err.orig_doc and is_filename(err.orig_doc)
+                and err_str.startswith(err.orig_doc + ':')
+                and err.orig_doc.startswith(cwd)):
+            err_str = err_str[len(cwd):]
+        error_strings.append(err_str)
     return error_strings
 
-- 
2.43.0


From c627a1f61b75166e134bd1399a61e4133067f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:27 +0000
Subject: [PATCH 070/155] fix: keys of dictionaries were not escaped in
 partially serialized and pretty-printed JSON

Keys containing quotes, backslashes or control-characters yielded invalid JSON and keys
that are not strings (which json.dumps() converts to strings) a TypeError.
---
 DHParser/toolkit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 3197433..ee840c5 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1587,6 +1587,9 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
     #     else:
     #         yield from serialize(custom_encoder.default(obj))
 
+    def serialize_key(key) -> str:
+        return json_encode_string(key if isinstance(key, str) else serialize(key)[0])
+
     def serialize(obj) -> List[str]:
         if isinstance(obj, str):
             return [json_encode_string(obj)]
@@ -1594,7 +1597,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
             if obj:
                 r = ['{']
                 for k, v in obj.items():
-                    r.append('"' + k + '":')
+                    r.append(serialize_key(k) + ':')
                     r.extend(serialize(v))
                     r.append(',')
                 r[-1] = '}'
@@ -1679,6 +1682,9 @@ def pp_json(obj: JSON_Type, *, cls=json.JSONEncoder) -> str:
     """
     custom_encoder = cls()
 
+    def serialize_key(key) -> str:
+        return json_encode_string(key if isinstance(key, str) else serialize(key, '')[0])
+
     def serialize(obj, indent: str) -> List[str]:
         if isinstance(obj, str):
             if obj.find('\n') >= 0:
@@ -1693,13 +1699,13 @@ def pp_json(obj: JSON_Type, *, cls=json.JSONEncoder) -> str:
                 if len(obj) == 1:
                     k, v = next(iter(obj.items()))
                     if not isinstance(v, (dict, list, tuple)):
-                        r = ['{"' + k + '": ']
+                        r = ['{' + serialize_key(k) + ': ']
                         r.extend(serialize(v, indent + '  '))
                         r.append('}')
                         return r
                 r = ['{\n' + indent + '  ']
                 for k, v in obj.items():
-                    r.append('"' + k + '": ')
+                    r.append(serialize_key(k) + ': ')
                     r.extend(serialize(v, indent + '  '))
                     r.append(',\n' + indent + '  ')
                 r[-1] = '}'
-- 
2.43.0


From 3b42e898f4e42e6d185dc235b25b092383f66a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 071/155] fix: matching_brackets() did not report all unmatched
 opening brackets

Of several unmatched opening brackets after the last closing bracket only
the first one was reported, or even none if there was an unmatched bracket before.
---
 DHParser/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index ee840c5..9d10ad8 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -970,10 +970,10 @@ def matching_brackets(text: str,
             if unmatched is not NOPE:  unmatched.append(b)
         b = text.find(closeB, b + db)
     if unmatched is not NOPE:
-        if stack:
-            unmatched.extend(stack)
-        elif a >= 0:
-            unmatched.append(a)
+        while a >= 0:
+            stack.append(a)
+            a = text.find(openB, a + da)
+        unmatched.extend(stack)
     return matches
 
 
-- 
2.43.0


From c5fe3dcbb1cf76dca6269c72a5877ce9e354ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 072/155] fix: matching_brackets() mistook escaped square
 brackets in regular expressions

An escaped opening square bracket was treated as the beginning of a character-set and
an escaped backslash before a bracket was not always recognized, so that brackets were
overlooked or reported, although they are not control-characters.
---
 DHParser/toolkit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 9d10ad8..6097938 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -890,8 +890,7 @@ NOPE = []  # a list that is empty and is supposed to remain empty
 INFINITE = 2**30  # a practically infinite value
 
 _RX_CHARSET = LazyRE(r'(?<=\[)(?:(?<!\\)(?:\\\\)*\\\]|[^\]])*(?=\])')
-_RX_ESCAPED_ROUND_BRACKET = LazyRE(r'(?<!\\)(?:\\\\)*\\[()]')
-_RX_ESCAPED_SQUARE_BRACKET = LazyRE(r'(?<!\\)(?:\\\\)*\\[\[\]]')
+_RX_ESCAPED_OR_CHARSET = LazyRE(r'\\.|\[\^?\]?(?:\\.|[^\]\\])*\]', re.DOTALL)
 
 
 def _sub_size(rx: Union[RxPatternType, LazyRE], text: str, fill_char: str = ' ') -> str:
@@ -945,9 +944,8 @@ def matching_brackets(text: str,
     assert not unmatched, \
         "Please pass an empty list as unmatched flag, not: " + str(unmatched)
     if is_regex:
-        text = _sub_size(_RX_CHARSET, text)
-        text = _sub_size(_RX_ESCAPED_ROUND_BRACKET, text)
-        text = _sub_size(_RX_ESCAPED_SQUARE_BRACKET, text)
+        text = subf(_RX_ESCAPED_OR_CHARSET,
+                    lambda ms: '  ' if ms[0] == '\\' else '[' + ' ' * (len(ms) - 2) + ']', text)
     stack, matches = [], []
     da = len(openB)
     db = len(closeB)
-- 
2.43.0


From 23bd1645ccf64dcc7cfc49a101132271504e14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 073/155] fix: wrap_str_literal() tore escape-sequences apart

Only single-character escapes were kept together, so that wrapping a literal containing
hexadecimal, unicode or octal escapes could yield an illegal or a different literal.
---
 DHParser/toolkit.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 6097938..dc83bbc 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -707,6 +707,10 @@ def abbreviate_middle(s: str, max_length: int) -> str:
     return s
 
 
+RX_LITERAL_CHUNK = LazyRE(r'\\(?:x[0-9A-Fa-f]{2}|u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}'
+                          r'|N\{[^}]*\}|[0-7]{1,3}|.)|.', re.DOTALL)
+
+
 def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0) -> str:
     r"""Wraps an excessively long string literal over several lines.
     Example::
@@ -747,16 +751,11 @@ def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0
     assert len(s) >= 2 and q == s[-1] and q in ('"', "'", "`", "´"), \
         "string literal must be enclosed by quotation marks"
     if parts is None:
-        parts = [s[i: i + column] for i in range(0, len(s), column)]
-        for i in range(len(parts) - 1):
-            p = parts[i]
-            k = 1
-            while k <= len(p) and p[-k] == '\\':
-                k += 1
-            k -= 1
-            if k > 0:
-                parts[i] = p[:-k]
-                parts[i + 1] = p[-k:] + parts[i + 1]
+        parts = ['']
+        for chunk in RX_LITERAL_CHUNK.findall(s):  # never split inside an escape-sequence
+            if parts[-1] and len(parts[-1]) + len(chunk) > column:
+                parts.append('')
+            parts[-1] += chunk
     if r:  parts[0] = r + parts[0]
     wrapped = (''.join([q, '\n', ' ' * offset, r, q])).join(parts)
     return wrapped
-- 
2.43.0


From 9e4e09d4d4285d2e181be2e6a2bf0ea15e282fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 074/155] fix: wrap_str_nicely() lost the last character of a
 string

or crashed with an IndexError if a line consisted of nothing but wrap-characters.
---
 DHParser/toolkit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index dc83bbc..e11277e 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -816,7 +816,7 @@ def wrap_str_nicely(s: str, wrap_column: int = 79, tolerance: int = 24,
     while i < len(s):
         for ch in wrap_chars:
             m = i
-            while s[m] == ch:  m -= 1
+            while m >= a and s[m] == ch:  m -= 1
             if i - m > tolerance // 2:
                 continue
             k = s.rfind(ch, a, m)
@@ -830,7 +830,7 @@ def wrap_str_nicely(s: str, wrap_column: int = 79, tolerance: int = 24,
             parts.append(s[a:i])
             a = i
             i += wrap_column
-    if a < len(s) - 1:  parts.append(s[a:])
+    if a < len(s):  parts.append(s[a:])
     return '\n'.join(parts)
 
 
-- 
2.43.0


From 71952609b108b6eaad7ace763d1b34e5b078ac40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 075/155] fix: abbreviate_middle() with a maximal length of 7
 made strings longer

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index e11277e..2477c6d 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -703,7 +703,7 @@ def abbreviate_middle(s: str, max_length: int) -> str:
     if length > max_length:
         a = max_length // 2 - 2  # type: int
         b = max_length // 2 - 3  # type: int
-        s = s[:a] + ' ... ' + s[-b:] if length > 40 else s
+        s = s[:a] + ' ... ' + s[length - b:] if length > 40 else s
     return s
 
 
-- 
2.43.0


From 112eef7b69a1f914bf4a119fd71f84c6abd8ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 076/155] fix: LazyRE forgot its flags when one of its
 properties was read first

---
 DHParser/toolkit.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 2477c6d..46d2561 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -530,32 +530,27 @@ class LazyRE:
 
     @property
     def Pattern(self):
-        if self.rx is None:
-            self.rx = re.compile(self.regexp)
+        self.compile_me()
         return self.rx
 
     @property
     def pattern(self):
-        if self.rx is None:
-            self.rx = re.compile(self.regexp)
+        self.compile_me()
         return self.rx.pattern
 
     @property
     def flags(self):
-        if self.rx is None:
-            self.rx = re.compile(self.regexp)
+        self.compile_me()
         return self.rx.flags
 
     @property
     def groups(self):
-        if self.rx is None:
-            self.rx = re.compile(self.regexp)
+        self.compile_me()
         return self.rx.groups
 
     @property
     def groupindex(self):
-        if self.rx is None:
-            self.rx = re.compile(self.regexp)
+        self.compile_me()
         return self.rx.groupindex
 
     def search(self, *args, **kwargs):
-- 
2.43.0


From 7cba5ffe9f01f077ab8181864b6744eef5827fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 077/155] fix: relative_path() was wrong for directories with
 similar names

The common part of both paths could end in the middle of the name of a directory.
---
 DHParser/toolkit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 46d2561..6d754f6 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -474,6 +474,7 @@ def relative_path(from_path: str, to_path: str) -> str:
     L = min(len(from_path), len(to_path))
     while i < L and from_path[i] == to_path[i]:
         i += 1
+    i = from_path.rfind('/', 0, i) + 1  # only whole path-components count as common
     return os.path.normpath(from_path[i:].count('/') * '../' + to_path[i:])
 
 
-- 
2.43.0


From 1ce9ecf3fa6a9a0da984fc960030f1faed243942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:18 +0000
Subject: [PATCH 078/155] fix: split_path() did not terminate for absolute
 paths

---
 DHParser/toolkit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 6d754f6..131fb52 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -489,7 +489,9 @@ def split_path(path: str) -> Tuple[str, ...]:
     """
     split = os.path.split(path)
     while split[0]:
-        split = os.path.split(split[0]) + split[1:]
+        head = os.path.split(split[0])
+        if head[0] == split[0]:  return split  # root-directory
+        split = head + split[1:]
     return split[1:]
 
 
-- 
2.43.0


From 80d24b96981372f05656c0a8947b9f56433bc35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 079/155] fix: get_config_values() ignored thread-local values
 for additional patterns

The values that match only one of the additional patterns were read from the
presets and even overwrote the values that had been set in the thread.
---
 DHParser/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..bb28914 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -471,7 +471,7 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
                 cfg_values.update(cfg)
             else:
                 cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
+                                   if fnmatch.fnmatchcase(key, pattern)})
         presets.update(cfg_values)
         cfg.update(presets)
     return presets
-- 
2.43.0


From dd45ee5148ae4ef803b4cdb2b5a0d295032f5672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 080/155] fix: errors in configuration-files left the presets
 locked

A value that is no valid Python-expression or has the wrong type raised an exception
before finalize_presets() was called, so that reading configuration-values
failed ever after. Also, all entries following an invalid entry within the same
section were silently ignored.
---
 DHParser/configuration.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index bb28914..aed63c2 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -275,18 +275,17 @@ def ingest_config_data(config, sources=''):
     configparser.ConfigParser-object."""
     errors = []
     access_presets()
-    for section in config.sections():
-        try:
-            if section.lower() == "dhparser":
-                for variable, value in config[section].items():
-                    set_preset_value(f"{variable}", eval(value))
-            else:
-                for variable, value in config[section].items():
-                    set_preset_value(f"{section}.{variable}", eval(value),
-                                     allow_new_key=True)
-        except ValueError as e:
-            errors.append(' '.join(e.args))
-    finalize_presets()
+    try:
+        for section in config.sections():
+            is_dhparser = section.lower() == "dhparser"
+            for variable, value in config[section].items():
+                key = variable if is_dhparser else f"{section}.{variable}"
+                try:
+                    set_preset_value(key, eval(value), allow_new_key=not is_dhparser)
+                except (ValueError, TypeError, SyntaxError, NameError) as e:
+                    errors.append(f'{key}: {e}')
+    finally:
+        finalize_presets()
     if errors:
         sources = f' files: {sources}'
         raise ValueError(f"\n\nErrors found in configuration{sources}:\n\n"
-- 
2.43.0


From 14fd4842893173d1ca74a9ddd0c9f6efd84e9bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 081/155] fix: dump_config_data() wrote the same section
 several times

If the keys of a section were not adjacent, the result could not be read as
configuration-file, because configparser does not allow duplicate sections.
---
 DHParser/configuration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index aed63c2..01c8b34 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -519,7 +519,9 @@ def dump_config_data(*key_patterns, use_headings: bool = True) -> str:
         if data:
             results = []
             last_prefix = None
-            for k, v in data.items():
+            prefixes = list(k[:k.find('.') + 1] for k in data)
+            for k, v in sorted(data.items(),
+                               key=lambda item: prefixes.index(item[0][:item[0].find('.') + 1])):
                 i = k.find('.')
                 prefix = k[:i + 1]
                 name = k[i + 1:] if use_headings else k
-- 
2.43.0


From b275b92aed3fa0309e698b0ca25a187730de0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 082/155] fix: reading configuration-values failed while
 presets were being accessed

get_config_value() and get_config_values() claimed exclusive access to the presets, just
to read them. Thus, they raised an AssertionError, if the presets were being accessed
at the same time, e.g. by another thread or when called between
access_presets() and finalize_presets(). Conversely, merely reading a configuration value
in one thread made access_presets() fail in another thread.
---
 DHParser/configuration.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 01c8b34..16cdeef 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -170,11 +170,17 @@ def access_presets():
     changed preset-values to spawned processes. For an explanation why,
     see: https://docs.python.org/3/library/multiprocessing.html#the-spawn-and-forkserver-start-methods
     """
-    global ACCESSING_PRESETS, CONFIG_PRESET
+    global ACCESSING_PRESETS
     if ACCESSING_PRESETS:
         raise AssertionError('Presets are already being accessed! '
                              'Calls to access_presets() cannot be nested.')
     ACCESSING_PRESETS = True
+    _sync_presets()
+
+
+def _sync_presets():
+    """Updates the presets from the sync-file, if there is any."""
+    global CONFIG_PRESET
     import multiprocessing
     mp_method = multiprocessing.get_start_method()
     if mp_method != 'fork' or CONFIG_PRESET['multicore_pool'] == 'InterpreterPool':
@@ -440,12 +446,10 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
         try:
             return cfg[key]
         except KeyError:
-            access_presets()
-            # value = get_preset_value(key, default)
-            for k, v in CONFIG_PRESET.items():
+            if not ACCESSING_PRESETS:  _sync_presets()
+            for k, v in tuple(CONFIG_PRESET.items()):
                 if k not in cfg:
                     cfg[k] = v
-            finalize_presets()
             if default is NO_DEFAULT:
                 value = cfg[key]
             else:
@@ -456,13 +460,13 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
 def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
     """Returns a dictionary of all configuration entries that match
     `key_pattern`."""
-    access_presets()
-    presets = get_preset_values(key_pattern)
-    for pattern in additional_patterns:
-        presets.update(get_preset_values(pattern))
-    finalize_presets()
     import fnmatch
     with get_access_lock():
+        if not ACCESSING_PRESETS:  _sync_presets()
+        presets = dict()
+        for pattern in (key_pattern, *additional_patterns):
+            presets.update({key: value for key, value in tuple(CONFIG_PRESET.items())
+                            if fnmatch.fnmatchcase(key, pattern)})
         cfg = _config_dict()
         cfg_values = dict()
         for pattern in (key_pattern, *additional_patterns):
-- 
2.43.0


From 3d58a3d23d6cce676e52842d8b93412b55fa13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 083/155] fix: "multicore_pool" could not be set in a
 configuration-file

although it can be set with a configuration-file only.
---
 DHParser/configuration.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 16cdeef..b8be7dd 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -254,7 +254,7 @@ RENAMED_KEYS = {
 
 
 def set_preset_value(key: str, value: Any, allow_new_key: bool=False):
-    global CONFIG_PRESET, ACCESSING_PRESETS, PRESETS_CHANGED
+    global CONFIG_PRESET, ACCESSING_PRESETS
     if not ACCESSING_PRESETS:
         raise AssertionError('Presets must be made accessible with access_presets() first, '
                              'before they can be set!')
@@ -271,6 +271,11 @@ def set_preset_value(key: str, value: Any, allow_new_key: bool=False):
     if key == 'multicore_pool':
         raise AssertionError('Preset of "multicore_pool" can only be changed with a '
                               'configuration-file, but not at runtime!')
+    _store_preset_value(key, value)
+
+
+def _store_preset_value(key: str, value: Any):
+    global PRESETS_CHANGED
     CONFIG_PRESET[key] = value
     set_config_value(key, value)
     PRESETS_CHANGED = True
@@ -287,7 +292,12 @@ def ingest_config_data(config, sources=''):
             for variable, value in config[section].items():
                 key = variable if is_dhparser else f"{section}.{variable}"
                 try:
-                    set_preset_value(key, eval(value), allow_new_key=not is_dhparser)
+                    if key == 'multicore_pool':  # cannot be set with set_preset_value()
+                        pool = eval(value)
+                        validate_value(key, pool)
+                        _store_preset_value(key, pool)
+                    else:
+                        set_preset_value(key, eval(value), allow_new_key=not is_dhparser)
                 except (ValueError, TypeError, SyntaxError, NameError) as e:
                     errors.append(f'{key}: {e}')
     finally:
-- 
2.43.0


From a393619bdc50ecb7a4acbfbb4817137154533713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 084/155] fix: attribute-visitors of compilers were called
 twice

fallback_compiler() called the attribute-visitors of its node, although
compile() calls them after any compilation method, the fallback included.
Also, AttributeErrors inside of attribute-visitors were silently swallowed.
---
 DHParser/compile.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e298bc7..d5e095b 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -279,11 +279,9 @@ class Compiler:
         if node.has_attr():
             self.path.append(node)
             for attribute, value in tuple(node.attr.items()):
-                try:
-                    attribute_visitor = self.__getattribute__(self.attr_visitor_name(attribute))
+                attribute_visitor = getattr(self, self.attr_visitor_name(attribute), None)
+                if attribute_visitor is not None:
                     attribute_visitor(node, value)
-                except AttributeError:
-                    pass
             self.path.pop()
 
     def fallback_compiler(self, node: Node) -> Any:
@@ -313,8 +311,6 @@ class Compiler:
                     if nd is not None and nd.name != EMPTY_PTYPE:
                         result.append(nd)
                 node.result = tuple(result)
-        if self.has_attribute_visitors:
-            self.visit_attributes(node)
         return node
 
     def find_compilation_method(self, node: Node) -> CompileMethod:
-- 
2.43.0


From 2fa50518b35154bf77a12d06de052bd5d0f2dafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 085/155] fix: compilers were not cancelled by the cancel_query
 of compile_source()

compile_source() and run_pipeline() set the cancel_query-attribute of the
compiler, but Compiler.__call__() overwrote it with None. The cancel_query
of the transformer was only set after parsing errors.
---
 DHParser/compile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index d5e095b..1544f97 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -260,7 +260,8 @@ class Compiler:
         if self._dirty_flag:
             self.reset()
         self._dirty_flag = True
-        self.cancel_query = cancel_query
+        if cancel_query is not None:
+            self.cancel_query = cancel_query
         self.tree = root if isinstance(root, RootNode) else RootNode(root)
         self.prepare(self.tree)
         try:
@@ -522,12 +523,12 @@ def compile_source(source: str,
 
         # AST-transformation
 
+        if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
         if is_error(syntax_tree.error_flag):
             # catch Python exception, because if an error has occurred
             # earlier, the syntax tree might not look like expected,
             # which could (fatally) break AST transformations.
             try:
-                if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
                 syntax_tree = transformer(syntax_tree)
             except Exception as e:
                 syntax_tree.new_error(syntax_tree,
-- 
2.43.0


From d66aad9b8476fca9c8c3b53fe5c00ef936b17e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 086/155] fix: fatal preprocessor-errors were reported without
 line and column

---
 DHParser/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 1544f97..9f5a286 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -46,7 +46,8 @@ from DHParser.nodetree import Node, RootNode, EMPTY_PTYPE, Path
 from DHParser.transform import TransformerFunc
 from DHParser.parse import ParserCallable, Parser
 from DHParser.error import is_error, is_fatal, Error, FATAL, CANCELED, \
-    TREE_PROCESSING_CRASH, COMPILER_CRASH, AST_TRANSFORM_CRASH, has_errors
+    TREE_PROCESSING_CRASH, COMPILER_CRASH, AST_TRANSFORM_CRASH, has_errors, \
+    add_source_locations
 from DHParser.log import log_parsing_history, log_ST, is_logging
 from DHParser.toolkit import load_if_file, is_filename, re, TypeAlias, \
     deprecated, DHPARSER_FILES, CancelQuery
@@ -498,6 +499,7 @@ def compile_source(source: str,
         _, source_text, source_mapping, errors = preprocessor(original_text, source_name)
 
     if has_errors(errors, FATAL):
+        add_source_locations(errors, source_mapping)
         return CompilationResult(None, errors, None)
 
     # parsing
-- 
2.43.0


From 19593355d6a541b17d7ac319bf511006421e2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:04 +0000
Subject: [PATCH 087/155] fix: cancelling the parsing of an empty document
 raised a CancelError

---
 DHParser/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 4a517f7..dba96c1 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2050,6 +2050,11 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            except CancelError as ce:
+                result = Node(EMPTY_NODE.name, '').with_pos(0)
+                self.tree__.new_error(
+                    result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
             if result is None:
-- 
2.43.0


From 8213fd7caaa1f49b5c67d9d439897b9cf1c99d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:03 +0000
Subject: [PATCH 088/155] fix: byte order marks at the beginning of files were
 not stripped

With a byte order mark, the locations of errors in files were off by one on
all lines but the first one, because Grammar skips byte order marks. The
byte order marks of included files ended up in the middle of the text.
---
 DHParser/preprocess.py | 4 ++--
 DHParser/toolkit.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3d72da5..40f0882 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -464,7 +464,7 @@ class ReadIncludeClass:
     def __call__(self, include_name: str) -> str:
         return self.read_include(include_name)
     def read_include(self, include_name: str) -> str:
-        with open(include_name, 'r', encoding='utf-8') as f:
+        with open(include_name, 'r', encoding='utf-8-sig') as f:
             return f.read()
 
 
@@ -576,7 +576,7 @@ def preprocess_includes(original_text: Optional[str],
         processed document, source mapping, (possibly empty) list of errors)
     """
     if not original_text:
-        with open(original_name, 'r', encoding='utf-8') as f:
+        with open(original_name, 'r', encoding='utf-8-sig') as f:
             original_text = f.read()
     include_map, result = generate_include_map(
         original_name, original_text, find_next_include, include_reader)
diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 131fb52..cac4329 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1148,7 +1148,7 @@ def load_if_file(text_or_file) -> str:
 
     if is_filename(text_or_file):
         try:
-            with open(text_or_file, encoding="utf-8") as f:
+            with open(text_or_file, encoding="utf-8-sig") as f:
                 content = f.read()
             return content
         except FileNotFoundError:
-- 
2.43.0


From 8819593bf9000cb79506e3fbe1afeee507c7608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 089/155] fix: preprocess_includes() crashed on empty documents

If an empty document was passed, preprocess_includes() tried to read it from
the disk. Thus, compile_ebnf('') raised a FileNotFoundError.
---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 40f0882..2b4b0fc 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -575,7 +575,7 @@ def preprocess_includes(original_text: Optional[str],
     :return: the result of the preprocessing: (original document,
         processed document, source mapping, (possibly empty) list of errors)
     """
-    if not original_text:
+    if original_text is None:
         with open(original_name, 'r', encoding='utf-8-sig') as f:
             original_text = f.read()
     include_map, result = generate_include_map(
-- 
2.43.0


From 2bdbaa6584dc630a6eea06fe5efcc99c7fc6a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 090/155] fix: source-maps of tokenized texts did not cover the
 end of the text

If a text ended with a token, mapping the position of its end, e.g. for
locating an error, raised a ValueError.
---
 DHParser/preprocess.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 2b4b0fc..306fa6c 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -379,9 +379,8 @@ def tokenized_to_original_mapping(tokenized_text: str,
         positions.extend([d + 1, e + 1])
         offsets.extend([o + 1, o])
         i = tokenized_text.find(BEGIN_TOKEN, e + 1)
-    if e + 1 < len(tokenized_text):
-        positions.append(len(tokenized_text) + 1)
-        offsets.append(offsets[-1])
+    positions.append(len(tokenized_text) + 1)
+    offsets.append(offsets[-1])
 
     # specific condition for preprocessor tokens
     assert all(offsets[i] > offsets[i + 1] for i in range(len(offsets) - 2))
-- 
2.43.0


From 8eb66d0e7d1592d168c160a73492e4484fe6d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:18 +0000
Subject: [PATCH 091/155] fix: SourceMap.validate() overlooked lists of
 different lengths

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 306fa6c..d92e1ea 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -291,7 +291,7 @@ class SourceMap(NamedTuple):
     __module__ = __name__       # needed for cython compatibility
 
     def validate(self) -> SourceMap:   # actually returns Self
-        if len(self.positions) != len(self.offsets) != len(self.file_names):
+        if not (len(self.positions) == len(self.offsets) == len(self.file_names)):
             raise ValueError("The length of the lists of positions, offsets and file names "
                              "must be equal.")
         if len(self.positions) < 2:
-- 
2.43.0


From 3c6dea2038432d78ae76a3cec97f321e01c9d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 092/155] fix: ReadIncludeOnce included the same file more than
 once

A new include-reader was created for every single file, so that a file
included by two different files was read twice. And if a file was skipped,
because it had been included before, its text was lost in the source-map.
---
 DHParser/preprocess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index d92e1ea..b42fe09 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -485,6 +485,7 @@ def generate_include_map(original_name: str,
                          include_reader: IncludeReaderFactory = ReadIncludeClass) \
                          -> Tuple[SourceMap, str]:
     file_names: set = set()
+    read_include = include_reader()
 
     def generate_map(source_name, source_text, find_next) -> Tuple[SourceMap, str]:
         nonlocal file_names
@@ -502,7 +503,6 @@ def generate_include_map(original_name: str,
         last_begin = -1
         begin, length, include_name = find_next(source_text, 0)
         include_name = os.path.join(dirname, include_name)
-        read_include = include_reader()
         while begin >= 0:
             assert begin > last_begin
             source_delta = begin - original_pointer
@@ -523,7 +523,9 @@ def generate_include_map(original_name: str,
             map.file_names.extend(inner_map.file_names[:-1])
             map.positions.extend(inner_map.positions[:-1])
             map.offsets.extend(inner_map.offsets[:-1])
-            map.originals_dict.update(inner_map.originals_dict)
+            for name, text in inner_map.originals_dict.items():
+                if text or name not in map.originals_dict:
+                    map.originals_dict[name] = text
             result.append(inner_text)
             inner_length = len(inner_text)
             result_pointer += inner_length
-- 
2.43.0


From 46b4b488536b06ccc1aba585807fcc5abf7a348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 093/155] fix: circular includes were not detected if the path
 was spelled differently

With an include like "./main.txt" the name of the included file differed on
each level ("./main.txt", "././main.txt", ...). Thus, the circular include
was not reported, but led to a recursion error.
---
 DHParser/preprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index b42fe09..ddc102b 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -492,9 +492,10 @@ def generate_include_map(original_name: str,
         map = SourceMap(source_name, [0], [0], [source_name], {source_name: source_text})
         result = []
 
-        if source_name in file_names:
+        file_id = os.path.normpath(source_name)
+        if file_id in file_names:
             raise ValueError(f'Circular include of {source_name} detected!')
-        file_names.add(source_name)
+        file_names.add(file_id)
 
         dirname = os.path.dirname(source_name)
         original_pointer = 0
@@ -542,7 +543,7 @@ def generate_include_map(original_name: str,
             map.positions.append(map.positions[-1] + len(rest))
             map.offsets.append(original_offset)
             map.file_names.append(source_name)
-        file_names.remove(source_name)
+        file_names.remove(file_id)
         # map.file_offsets = [-offset for offset in map.offsets]  # only for debugging!
         return map, ''.join(result)
 
-- 
2.43.0


From f07641b6b1c58f2f26f00a83e6f8ec5002d9096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:28 +0000
Subject: [PATCH 094/155] fix: errors of a single preprocessor were located in
 the wrong text

In a chain of preprocessors the positions of errors are understood as
positions in the text that has been passed to the respective preprocessor,
but errors of a preprocessor that was not part of a chain were mapped as if
they referred to the preprocessed text.
---
 DHParser/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 9f5a286..ff28aa4 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -497,9 +497,11 @@ def compile_source(source: str,
     else:
         if hasattr(preprocessor, 'cancel_query'):  preprocessor.cancel_query = cancel_query
         _, source_text, source_mapping, errors = preprocessor(original_text, source_name)
+        # like in a chain of preprocessors, the positions of yet unlocated errors
+        # refer to the text that has been passed to the preprocessor
+        add_source_locations(errors, gen_neutral_srcmap_func(original_text, source_name))
 
     if has_errors(errors, FATAL):
-        add_source_locations(errors, source_mapping)
         return CompilationResult(None, errors, None)
 
     # parsing
-- 
2.43.0


From a1e283e2fbaaba7c1bf12f908421f2f2d41493cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 095/155] fix: run_pipeline() failed if a target was a distant
 ancestor of another target

The sorting of the junctions did not take into account that a target stage can
also be the source of a junction that is processed in an earlier step. With
junctions CST->AST->X->Y, requesting the stages "AST" and "Y" raised a KeyError.
---
 DHParser/pipeline.py | 48 ++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 31 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 96627e0..715317d 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -243,16 +243,6 @@ def run_pipeline(junctions: Set[Junction],
     """
     import copy
 
-    def cmp_junctions(a, b) -> int:
-        if a[-1] == b[0]:
-            return -1
-        if b[-1] == a[0]:
-            return 1
-        if b[-1] > a[-1]:
-            return -1
-        else:
-            return 0
-
     def verify_stage(given_stage, junction, field, further_info=''):
         if not given_stage:  return  # verification is considered as turned off
         assert field in (0, 2)
@@ -298,30 +288,26 @@ def run_pipeline(junctions: Set[Junction],
     t_to_j = {normalize_name(j[-1]): normalize_junction(j) for j in junctions}
     target_stages = {normalize_name(t) for t in target_stages}
     source_stages = {normalize_name(s): source_stages[s] for s in source_stages}
+    # determine the required junctions in an order that reaches each stage
+    # before any junction that departs from this stage is processed
     steps = []
-    targets = target_stages.copy()
-    already_reached = targets | source_stages.keys()
-    while targets:
-        try:
-            j_sequence = [t_to_j[t] for t in targets if t not in source_stages]
-            j_sequence.sort(key=functools.cmp_to_key(cmp_junctions))
-            steps.append(j_sequence)
-        except KeyError as e:
-            raise AssertionError(f"{e.args[0]} is not a valid target.")
-        targets = {j[0] for j in steps[-1] if j[0] not in already_reached}
-        already_reached |= targets
-        for step in steps[:-1]:
-            for j in steps[-1]:
-                try:
-                    step.remove(j)
-                except ValueError:
-                    pass
-    if not (target_stages <= already_reached):
-        raise ValueError(f'Target-stages: {target_stages - already_reached} '
-                         f'cannot be reached with junctions: {junctions}.')
+    already_reached = set(source_stages.keys())
+    for target in sorted(target_stages):
+        step = []
+        stage = target
+        while stage not in already_reached:
+            if stage not in t_to_j:
+                raise AssertionError(f"{stage} is not a valid target.")
+            if t_to_j[stage] in step:
+                raise ValueError(f'Target-stage: {target} '
+                                 f'cannot be reached with junctions: {junctions}.')
+            step.append(t_to_j[stage])
+            stage = step[-1][0]
+        step.reverse()
+        steps.append(step)
+        already_reached.update(j[-1] for j in step)
     sources = [j[0] for step in steps for j in step]
     disposables = {s for s in set(sources) if s not in target_stages and sources.count(s) <= 1}
-    steps.reverse()
     results: Dict[str, Any] = source_stages.copy()
     errata: Dict[str, List[Error]] = {s: source_stages[s].errors_sorted for s in source_stages}
     cancel = False
-- 
2.43.0


From fbb9f6d36cf4114cf17e63c5c186aaf55159fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:29 +0000
Subject: [PATCH 096/155] fix: run_pipeline() did not report that it had been
 canceled

---
 DHParser/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 715317d..9bdc0c0 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -336,9 +336,9 @@ def run_pipeline(junctions: Set[Junction],
                     elif hasattr(transformation, 'cancel_query__'):
                         transformation.cancel_query__ = cancel_query
                     results[t] = process_tree(transformation, tree)  # TODO: pass cancel query, here
-                    errata[t] = copy.copy(tree.errors_sorted)
                     if cancel_query is not None and cancel_query():
                         tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
+                    errata[t] = copy.copy(tree.errors_sorted)
                     if is_fatal(tree.error_flag):
                         cancel = True
                         break
-- 
2.43.0


From e6d2f169329f7e35042e045a85ab3485426308b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 097/155] fix: wrong Content-Length of plain-data responses of
 the server

The length was counted in characters rather than in bytes, so that responses
containing non-ASCII-characters were cut off by the client.
---
 DHParser/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..e38614a 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1383,8 +1383,9 @@ class Server:
 
         async def respond(response: Union[str, bytes, bytearray]):
             if header:
-                HEADER = JSONRPC_HEADER if isinstance(response, str) else JSONRPC_HEADER_BYTES
-                await self.respond(writer, HEADER % len(response) + response)
+                if isinstance(response, str):
+                    response = response.encode()
+                await self.respond(writer, JSONRPC_HEADER_BYTES % len(response) + response)
             else:
                 await self.respond(writer, response)
 
-- 
2.43.0


From 5ce61564d483e3994726be6bd50c5f3039aab2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 098/155] fix: headers starting with Content-Type were not
 recognized if cut into chunks

If the first chunk of a message ended before the Content-Length-field, the
server took the beginning of the header for a plain-data request.
---
 DHParser/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index e38614a..781b21e 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -319,8 +319,9 @@ def http_response(html: Union[str, bytes], mime_type: str = 'text/html') -> byte
 
 def incomplete_header(data: BytesType) -> bool:
     """Returns `True` if data appears to represent an incomplete header."""
-    return b'Content-Length'.startswith(data) or \
-           (data.startswith(b'Content-Length') and not re.search(RE_DATA_START, data))
+    return b'Content-Length'.startswith(data) or b'Content-Type'.startswith(data) or \
+           (data.startswith((b'Content-Length', b'Content-Type'))
+            and not re.search(RE_DATA_START, data))
 
 
 def split_header(data: BytesType) -> Tuple[BytesType, BytesType, BytesType]:
-- 
2.43.0


From 3c05c737fcca858574e69fddd301d053bcc9d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 099/155] fix: messages with an empty body (Content-Length: 0)
 blocked the server

After a message with an empty body the server did not only wait for further
data, but ended up in an endless loop as soon as any data arrived.
---
 DHParser/server.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 781b21e..8674d44 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1599,8 +1599,8 @@ class Server:
         while connection_alive():
             # reset the data variable
             data = bytearray()  # type: bytearray
-            # reset the content length
-            content_length = 0  # type: int
+            # reset the content length, -1 means: content length not (yet) known
+            content_length = -1  # type: int
             # reset the length of the header, represented by the variable `k`
             k = 0  # type: int
 
@@ -1636,7 +1636,7 @@ class Server:
             #
             # see also: test/test_server.TestLanguageServer.test_varying_data_chunk_sizes
 
-            while (content_length <= 0 or len(data) < content_length + k) and connection_alive():
+            while (content_length < 0 or len(data) < content_length + k) and connection_alive():
                 if buffer:
                     # if there is any data in the buffer, retrieve this first,
                     # before awaiting further data from the stream
@@ -1645,13 +1645,14 @@ class Server:
                 else:
                     try:
                         # await asyncio.sleep(0)
-                        data += await reader.read(content_length or self.max_data_size)
+                        data += await reader.read(content_length if content_length > 0
+                                                  else self.max_data_size)
                     except ConnectionError as err:  # (ConnectionAbortedError, ConnectionResetError)
                         self.log('ERROR while awaiting data: ', str(err), '\n')
                         if id_connection:
                             self.connection.alive = False
                         break
-                if content_length <= 0 or k <= 0:
+                if content_length < 0 or k <= 0:
                     # If content-length has not been set, look for it in the received data package.
                     i = data.find(b'Content-Length:', 0, 512)
                     m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
@@ -1666,7 +1667,7 @@ class Server:
                                 data = data[:k + content_length]
                         else:
                             k = len(data)
-                            content_length = 0
+                            content_length = -1
                     elif not incomplete_header(data):
                         # no header or no content-length given
                         # set `context_length` to the size of the data to break the loop
-- 
2.43.0


From 9cb1cdb8c6fd6cb5b786f26914214c5826f6a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 100/155] fix: the server lost requests and stayed blocked when
 a client closed its end

If the end of the stream had already been reached while there were still
requests in the buffer, these requests were lost. Moreover, the connection was
not given up, so that any following client was turned away.
---
 DHParser/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 8674d44..47bf4ff 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1593,7 +1593,8 @@ class Server:
         def connection_alive() -> bool:
             """-> `False` if connection is dead or shall be shut down."""
             return not self.kill_switch and self.connection is not None \
-                   and self.connection.alive and not reader.at_eof()  # and not reader.closed
+                   and self.connection.alive \
+                   and (buffer or not reader.at_eof())  # and not reader.closed
 
         buffer = bytearray()  # type: bytearray
         while connection_alive():
@@ -1791,7 +1792,7 @@ class Server:
                 self.log('SERVER MESSAGE: Closing service-connection.')
                 return
 
-        if self.connection and (self.kill_switch or not self.connection.alive):
+        if self.connection and (self.kill_switch or id_connection or not self.connection.alive):
             await self.connection.cleanup()
             try:
                 writer.write_eof()
-- 
2.43.0


From 11c0e6a535a8608ed4d262870765b7189b0c50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 101/155] fix: plain-data requests that are not valid UTF-8
 were not answered

---
 DHParser/server.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 47bf4ff..4273bba 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1398,24 +1398,29 @@ class Server:
             self.kill_switch = True
             reader.feed_eof()
         else:
+            rpc_error = None
             m = re.match(RE_FUNCTION_CALL, data)
-            if m:
-                func_name = m.group(1).decode()
-                argstr = m.group(2).decode()
-                if argstr:
-                    argument = tuple(convert_argstr(s)
-                                     for s in argstr.split(','))  # type: Union[Tuple, Dict]
+            try:
+                if m:
+                    func_name = m.group(1).decode()
+                    argstr = m.group(2).decode()
+                    if argstr:
+                        argument = tuple(convert_argstr(s)
+                                         for s in argstr.split(','))  # type: Union[Tuple, Dict]
+                    else:
+                        argument = ()
                 else:
-                    argument = ()
-            else:
+                    func_name = self.default
+                    argument = (data.decode(),)
+            except UnicodeDecodeError as e:
                 func_name = self.default
-                argument = (data.decode(),)
+                argument = ()
+                rpc_error = (-32700, f'UnicodeDecodeError: {e}')
 
             err_func = lambda *args, **kwargs: \
                 'No function named "%s" known to server %s !' % (func_name, self.server_name)
             func = self.rpc_table.get(func_name, err_func)  # type: Callable
-            rpc_error = None
-            if service_call:
+            if service_call and rpc_error is None:
                 if func_name in self.service_calls:
                     func, argument = self.amend_service_call(func_name, func, argument, err_func)
                 else:
-- 
2.43.0


From 98d40883535dfb299271d6cf45f5c66d64bfb90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 102/155] fix: unsolicited responses of the client took the
 server-connection down

A response-object from a client that had not been initialized raised an
AssertionError, and more than 100 responses that nobody waited for raised a
QueueFull-error.
---
 DHParser/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 4273bba..da47538 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -842,8 +842,12 @@ class Connection:
         # # Already logged as received message
         # if self.log_file:
         #     self.log('RESULT: ', json_dumps(json_obj), '\n')
-        assert self.response_queue is not None
-        self.response_queue.put_nowait(json_obj)
+        if self.response_queue is None:
+            self.log('Unexpected response (not initialized) dropped: ', str(json_obj), '\n')
+        elif self.response_queue.full():
+            self.log('Response dropped, because response queue is full: ', str(json_obj), '\n')
+        else:
+            self.response_queue.put_nowait(json_obj)
 
     async def _server_call(self, method: str, params: JSON_Type, ID: Optional[int]):
         """Issues a json-rpc call from the server to the client."""
-- 
2.43.0


From 6a7e25c5dde49e032be4f1ca1a29d6be45c11f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 103/155] fix: malformed or unusual json-rpc requests took the
 server-connection down

String-ids, re-used ids, methods or versions that are not strings, invalid
UTF-8 and positional parameters raised exceptions, so that the request was
not answered or the connection broken. Errors were answered with messages
that were not properly encoded as JSON-strings, and with the id 0 if the id of
the request was not known.
---
 DHParser/server.py | 77 ++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index da47538..f548f05 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1506,9 +1506,11 @@ class Server:
         result = None      # type: Optional[JSON_Type]
         rpc_error = None   # type: Optional[RPC_Error_Type]
         method_name = json_obj.get('method', '')
-        if json_obj.get('jsonrpc', '0.0') < '2.0':
+        response_id = json_obj.get('id', json_id)
+        version = json_obj.get('jsonrpc', '0.0')
+        if not isinstance(version, str) or version < '2.0':
             rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, version "' \
-                                ' "%s" found.' % json_obj.get('jsonrpc', b'unknown')
+                                ' "%s" found.' % str(version)
         elif not method_name:
             rpc_error = -32600, 'Invalid Request: No method specified.'
         elif method_name == STOP_SERVER_REQUEST:
@@ -1523,19 +1525,28 @@ class Server:
             rpc_error = -32601, 'Method not found: ' + str(json_obj['method'])
         elif method_name in self.rpc_table:
             method = self.rpc_table[method_name]
-            params = json_obj['params'] if 'params' in json_obj else {}
-            if service_call:
-                err_func = lambda *args, **kwargs: {
-                    "error": {"code": -32601,
-                              "message": "%s is not a service function" % method_name}}
-                method, params = self.amend_service_call(method_name, method, params, err_func)
-            params['ID'] = json_id
-            result, rpc_error = await self.run(method_name, method, params)
+            params = json_obj.get('params', None)
+            if params is None:
+                params = {}
+            elif isinstance(params, list):
+                params = tuple(params)
+            if not isinstance(params, (dict, tuple)):
+                rpc_error = -32602, 'Invalid Params: %s must be an object or an array' % str(params)
+            else:
+                if service_call:
+                    err_func = lambda *args, **kwargs: {
+                        "error": {"code": -32601,
+                                  "message": "%s is not a service function" % method_name}}
+                    method, params = self.amend_service_call(
+                        method_name, method, params, err_func)
+                if isinstance(params, dict):
+                    params['ID'] = response_id
+                result, rpc_error = await self.run(method_name, method, params)
 
         if isinstance(result, Dict) and 'error' in result:
             try:
-                rpc_error = result['error']['code'], result['error']['message']
-            except KeyError:
+                rpc_error = int(result['error']['code']), str(result['error']['message'])
+            except (KeyError, TypeError, ValueError):
                 rpc_error = -32603, 'Inconclusive error object: ' + str(result)
 
         if rpc_error is None:
@@ -1545,27 +1556,28 @@ class Server:
                     error = cast(Dict[str, str], result['error'])
                 except KeyError:
                     error = cast(Dict[str, str], result)
-                rpc_error = int(error['code']), error['message']
-            except TypeError:
-                pass  # result is not a dictionary, never mind
+                rpc_error = int(error['code']), str(error['message'])
+            except (TypeError, ValueError):
+                pass  # result is not a dictionary (or not an error), never mind
             except KeyError:
                 pass  # no errors in result
             if json_id is not None and result is not None:
                 try:
                     if isinstance(result, (bytes, bytearray)):
                         # assume that result is a json-format byte-string!
-                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %i}' % (result, json_id)
+                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %s}' \
+                            % (result, json.dumps(response_id).encode())
                     else:
-                        json_result = {"jsonrpc": "2.0", "result": result, "id": json_id}
+                        json_result = {"jsonrpc": "2.0", "result": result, "id": response_id}
                         response = json_dumps(json_result, cls=DHParser_JSONEncoder)
                     await self.respond(writer, response)
-                except TypeError as err:
+                except (TypeError, ValueError) as err:
                     rpc_error = -32070, str(err)
 
         if rpc_error is not None:
-            if json_id >= 0:
+            if 'id' in json_obj:
                 json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}, "id": %s}'%\
-                       (rpc_error[0], json_encode_string(rpc_error[1]), str(json_id))
+                       (rpc_error[0], json_encode_string(rpc_error[1]), json.dumps(response_id))
             else:
                 json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}}' % \
                        (rpc_error[0], json_encode_string(rpc_error[1]))
@@ -1725,6 +1737,7 @@ class Server:
                 # TODO: add batch processing capability!
                 #       (put calls to execute in asyncio tasks, use asyncio.gather)
                 json_id = 0       # type: int
+                raw_id = None     # type: Optional[JSON_Type]
                 raw = None        # type: Optional[JSON_Type]
                 json_obj = {}     # type: JSON_Dict
                 rpc_error = None  # type: Optional[RPC_Error_Type]
@@ -1741,18 +1754,18 @@ class Server:
                     try:
                         raw = json.loads(data) if sys.version_info >= (3, 6, 0) \
                             else json.loads(data.decode())
-                    except json.decoder.JSONDecodeError as e:
+                    except (ValueError, RecursionError) as e:
                         rpc_error = -32700, "JSONDecodeError: " \
                             + (str(e) + str(data)).replace('"', "`")
 
                 if rpc_error is None:
                     if isinstance(raw, Dict):
                         json_obj = cast(JSON_Dict, raw)
-                        raw_id = json_obj.get('id', gen_task_id())
-                        try:
-                            json_id = int(raw_id)
-                        except TypeError:
-                            json_id = 0
+                        raw_id = json_obj.get('id', None)
+                        if isinstance(raw_id, int) and not isinstance(raw_id, bool):
+                            json_id = raw_id
+                        else:
+                            json_id = gen_task_id()
                     else:
                         rpc_error = -32700, 'Parse error: JSON-package does not appear '\
                                             'to ba an RPC-call or -response!?'
@@ -1760,8 +1773,11 @@ class Server:
                 if rpc_error is None:
                     method = json_obj.get('method', '')
                     response = json_obj.get('result', None) or json_obj.get('error', None)
-                    if method:
-                        assert isinstance(method, str)
+                    if not isinstance(method, str):
+                        rpc_error = -32600, 'Invalid Request: "method" must be a string.'
+                    elif method and json_id in self.connection.active_tasks:
+                        rpc_error = -32600, 'Invalid Request: id %i already in use.' % json_id
+                    elif method:
                         if id_connection or method != 'initialize':
                             rpc_error = self.connection.verify_initialization(
                                 method, self.strict_lsp and bool(id_connection))
@@ -1782,8 +1798,9 @@ class Server:
                                             '"method" or "response"-field missing.'
 
                 if rpc_error is not None:
-                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": "%s"},'\
-                        ' "id": %s}' % (rpc_error[0], rpc_error[1], json_id)
+                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s},'\
+                        ' "id": %s}' % (rpc_error[0], json_encode_string(rpc_error[1]),
+                                        json.dumps(raw_id))
                     await self.respond(writer, response)
 
             if not id_connection:
-- 
2.43.0


From f77a9c8eafb247cea3cf122b369226c36ecdd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 104/155] fix: read_full_block() returned incomplete or too
 large blocks

If the data arrived in several chunks, only the first of the missing chunks
was read. Data beyond the block was not separated as backlog.
---
 DHParser/server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index f548f05..2efc5ab 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -686,9 +686,11 @@ async def read_full_block(reader: StreamReaderType) -> Tuple[int, bytes, bytes]:
         if m2:
             header_size = m2.end()
             missing = header_size + content_length - len(data)
-            if missing > 0:
+            while missing > 0 and not reader.at_eof():
                 data += await reader.read(missing)
-                backlog = data[header_size + content_length:]
+                missing = header_size + content_length - len(data)
+            backlog = data[header_size + content_length:]
+            data = data[:header_size + content_length]
         else:
             header_size = 0
     else:
-- 
2.43.0


From 9cd7800422bd4d62710a21e9aac0e7f8c6b2a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 105/155] fix: read_full_block() misread a Content-Length that
 was cut into chunks

---
 DHParser/server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2efc5ab..1b7eddb 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -678,12 +678,14 @@ async def read_full_block(reader: StreamReaderType) -> Tuple[int, bytes, bytes]:
         i = data.find(b'Content-Length:', 0, 512)
         m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
     if m:
-        content_length = int(m.group(1))
         m2 = re.search(RE_DATA_START, data)
         while not m2 and not reader.at_eof():
             data += await reader.read()
             m2 = re.search(RE_DATA_START, data)
         if m2:
+            # the last digits may have been missing when m was matched
+            m = RX_CONTENT_LENGTH.match(data, m.start(), m.start() + 100)
+            content_length = int(m.group(1))
             header_size = m2.end()
             missing = header_size + content_length - len(data)
             while missing > 0 and not reader.at_eof():
-- 
2.43.0


From c3fffc866d3f5f4c74f9a1e1d3881246596fa1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 106/155] fix: recompile_grammar() and create_scripts() skipped
 the grammars of a directory

unless it was the current working directory; and after an error the remaining
grammars were not compiled.
---
 DHParser/dsl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 33912d3..523f84b 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -657,8 +657,9 @@ def recompile_grammar(ebnf_filename: str,
     if os.path.isdir(ebnf_filename):
         success = True
         for entry in os.listdir(ebnf_filename):
-            if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                success = success and recompile_grammar(entry, parser_name, force)
+            path = os.path.join(ebnf_filename, entry)
+            if entry.lower().endswith('.ebnf') and os.path.isfile(path):
+                success = recompile_grammar(path, parser_name, force, notify) and success
         return success
 
     base, _ = os.path.splitext(ebnf_filename)
@@ -734,8 +735,9 @@ def create_scripts(ebnf_filename: str,
     """
     if os.path.isdir(ebnf_filename):
         for entry in os.listdir(ebnf_filename):
-            if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                create_scripts(entry)
+            path = os.path.join(ebnf_filename, entry)
+            if entry.lower().endswith('.ebnf') and os.path.isfile(path):
+                create_scripts(path)
         return
 
     base, _ = os.path.splitext(ebnf_filename)
-- 
2.43.0


From bc63f9c7a1f8a7029ae8945cd2029e0788dd6e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 107/155] fix: batch-processing crashed if multithreading was
 requested

instantiate_executor() raised a TypeError, because PickMultiCoreExecutor is not a class.
---
 DHParser/toolkit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index cac4329..8e391d6 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -2144,7 +2144,8 @@ def instantiate_executor(allow_parallel: bool,
         if mode == "singlethread":
             return SingleThreadExecutor()
         elif mode == "multithreading" or multiprocessing_broken():
-            if not (issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
+            if not (isinstance(preferred_executor, type)
+                    and issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
                 return concurrent.futures.ThreadPoolExecutor(*args, **kwargs)
         else:
             assert mode in ("multicore", "multiprocessing"), \
-- 
2.43.0


From daf2d18537a9864dea3136ce8e452013549a8ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 108/155] fix: process_file() could not write the errors of a
 document without results

if the output directory did not exist yet.
---
 DHParser/dsl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 523f84b..70b9cf8 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -819,6 +819,7 @@ def process_file(source: str, out_dir: str,
     end_results = {t: r for t, r in results.items() if t in targets}
 
     # create target directories
+    if out_dir:  os.makedirs(out_dir, exist_ok=True)
     for t in end_results.keys():
         path = os.path.join(out_dir, t)
         try:  # do not use os.path.exists(), here: RACE CONDITION!!
-- 
2.43.0


From 31454abe63baaa2e7ab1addb1e0111c0d276bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 109/155] fix: process_file() mistook the letters of the
 default serialization for a list of serializations

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 70b9cf8..3647b82 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -845,7 +845,7 @@ def process_file(source: str, out_dir: str,
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
-                    '*', get_config_value('default_serialization')))
+                    '*', [get_config_value('default_serialization')]))
                 for s in slist:
                     s = s.lower()  # normalize file-extensions:
                     if s == 'default':  s = get_config_value('default_serialization').lower()
-- 
2.43.0


From c83e59859f596537aa5b8d137451182e8d26ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 110/155] fix: process_file() wrote the file with a fatal error
 into the current directory

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 3647b82..c9e80e3 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -826,7 +826,7 @@ def process_file(source: str, out_dir: str,
             os.makedirs(path)
         except FileExistsError:
             if not os.path.isdir(path):
-                error_file_name = dest_name + '_FATAL_ERROR.txt'
+                error_file_name = os.path.join(out_dir, dest_name + '_FATAL_ERROR.txt')
                 with open(error_file_name, 'w', encoding='utf-8') as f:
                     f.write(f'Destination directory path "{path}" already in use!')
                 return error_file_name
-- 
2.43.0


From bd1843c58eac63a51965edb0671699ebc33ee53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:49 +0000
Subject: [PATCH 111/155] fix: a document that cannot be read broke off the
 processing of the whole batch

---
 DHParser/dsl.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index c9e80e3..5893bfc 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -814,8 +814,15 @@ def process_file(source: str, out_dir: str,
     """
     source_filename = source if is_filename(source) else 'unknown_document_name'
     dest_name = os.path.splitext(os.path.basename(source_filename))[0]
-    results = full_pipeline(source, preprocessor_factory, parser_factory, junctions, targets,
-                            cancel_query=cancel_query)
+    try:
+        results = full_pipeline(source, preprocessor_factory, parser_factory, junctions, targets,
+                                cancel_query=cancel_query)
+    except (OSError, UnicodeError) as error:  # source cannot be read
+        if out_dir:  os.makedirs(out_dir, exist_ok=True)
+        error_file_name = os.path.join(out_dir, dest_name + '_FATAL_ERROR.txt')
+        with open(error_file_name, 'w', encoding='utf-8') as f:
+            f.write(f'{type(error).__name__}: {error}')
+        return error_file_name
     end_results = {t: r for t, r in results.items() if t in targets}
 
     # create target directories
-- 
2.43.0


From f4f51d6639ca6e051bbc7dcda3d53e0a8f9ad53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 112/155] fix: batch_process() with a submit-function always
 failed

The process_file-function expects one tuple, but was called with separate
arguments if it was called via submit_func.
---
 DHParser/dsl.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 5893bfc..78be7f2 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -885,7 +885,7 @@ Future = object  # to save the import of concurrent.futures when not needed!
 def batch_process(file_names: List[str], out_dir: str,
                   process_file: Union[Callable[[Tuple[str, str, CancelQuery]], str],
                                       Callable[[Tuple[str, str]], str]],
-                  *, submit_func: Optional[Callable[[Callable, str, str, Callable], Future]] = None,
+                  *, submit_func: Optional[Callable[[Callable, Tuple], Future]] = None,
                   log_func: Optional[Callable[[str], None]] = None,
                   cancel_query: Optional[CancelQuery] = None,
                   cancel_func: Optional[CancelQuery] = None) -> List[str]:
@@ -902,8 +902,8 @@ def batch_process(file_names: List[str], out_dir: str,
         receives the name of a source file and output-directory as parameters
         and returns the name of an error-log-file (if there have been errors)
         or the empty string if there were none.
-    :param submit_func: A function which calls the process_file function. This
-        additional indirection allows executing the call in a separate thread
+    :param submit_func: A function which calls the process_file function with
+        the tuple that is passed as second argument. This additional indirection allows executing the call in a separate thread
         or process, if desired. submit_func must return a
         concurrent.futures.Future()-object!
     :param log_func: A function that receives a string as parameter and which
@@ -967,10 +967,10 @@ def batch_process(file_names: List[str], out_dir: str,
             pool.shutdown(wait=True)
     else:
         if pf_parms == 3:
-            futures = [submit_func(process_file, name, out_dir, cancel_query)
+            futures = [submit_func(process_file, (name, out_dir, cancel_query))
                        for name in file_names]
         else:
-            futures = [submit_func(process_file, name, out_dir) for name in file_names]
+            futures = [submit_func(process_file, (name, out_dir)) for name in file_names]
         res_iter = (f.result() for f in futures)
         error_files = collect_results(res_iter, file_names, log_func, cancel_query or never_cancel)
         for f in futures:  f.cancel()
-- 
2.43.0


From 7d685070d0006c01ebcd7b263aa169daeaf986f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 113/155] fix: a document with a circular include broke off the
 processing of the whole batch

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 78be7f2..4f1b6ac 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -817,7 +817,7 @@ def process_file(source: str, out_dir: str,
     try:
         results = full_pipeline(source, preprocessor_factory, parser_factory, junctions, targets,
                                 cancel_query=cancel_query)
-    except (OSError, UnicodeError) as error:  # source cannot be read
+    except (OSError, ValueError) as error:  # source cannot be read or circular include
         if out_dir:  os.makedirs(out_dir, exist_ok=True)
         error_file_name = os.path.join(out_dir, dest_name + '_FATAL_ERROR.txt')
         with open(error_file_name, 'w', encoding='utf-8') as f:
-- 
2.43.0


From 55e492dfedc07fdcc55ca80a97342d2638c4d7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 114/155] fix: unit_to_config() wrote test-cases that end with
 a quotation mark wrongly

---
 DHParser/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6411b99..cc848e9 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -340,14 +340,14 @@ def format_casestr(s: str) -> str:
     """Adds quotation marks and possibly indentation to a text-case string."""
     if s.find("\n") >= 0:
         for q in ('"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and s[-1:] != q[0]:
                 l = s.split('\n')
                 for i in range(1, len(l)):
                     l[i] = "    " + l[i]
                 return ''.join((q, '\n'.join(l), q))
     else:
         for q in ('"', "'", '"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and s[-1:] != q[0]:
                 return ''.join((q, s, q))
     raise ValueError(
         f"Cannot add quotation marks to {s}, because all possible single or tripple "
-- 
2.43.0


From abb454d437aadaeb0eaee18580caccc585afe8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 115/155] fix: grammar_suite() mistook the letters of a
 file-name-pattern for patterns

---
 DHParser/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index cc848e9..49db4f1 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -1058,7 +1058,7 @@ def grammar_suite(directory, parser_factory, transformer_factory,
                                               and callable(e[1]) for e in junctions), \
         f"Value {repr(junctions)} passed to parameter 'show' is not a set of compilation-junctions!"
 
-    if not isinstance(fn_patterns, collections.abc.Iterable):
+    if isinstance(fn_patterns, str) or not isinstance(fn_patterns, collections.abc.Iterable):
         fn_patterns = [fn_patterns]
     all_errors = OrderedDict()
     if verbose:
-- 
2.43.0


From 48dbf9d8d604bef40747531589165fb33a5d3866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:36 +0000
Subject: [PATCH 116/155] fix: fail-tests ignored the preprocessor

so that, other than match-tests, they tested the text that had not been preprocessed.
---
 DHParser/testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 49db4f1..213c9ac 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -930,7 +930,9 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
         for test_name, test_code in tests.get('fail', dict()).items():
             errflag = len(errata)
             try:
-                cst = parser(test_code, parser_name, complete_match=True)
+                _, prepped_text, back_mapping, errors = preprocessor(test_code, parser_name)
+                cst = parser(prepped_text, parser_name, back_mapping, complete_match=True)
+                for e in errors:  cst.add_error(None, e)
                 # complete_math=True, because fail-tests are specifically needed
                 # to test whitespace-parsers and thus must not tolerate left-over
                 # whitespace at the end!
-- 
2.43.0


From 5b47520220fc0299f7201d70b34644a59404fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 117/155] fix: first instantiation of a grammar class in
 several threads at the same time

The parsers of the class could be named twice ("Parser name cannot be
reassigned"), be listed twice, or the static analysis be ticked off twice.
---
 DHParser/parse.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index dba96c1..f321d54 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -35,6 +35,7 @@ import functools
 from collections import defaultdict
 import copy
 from functools import lru_cache
+import threading
 from typing import Callable, cast, Collection, DefaultDict, Sequence, Union, Optional, \
     NamedTuple, Iterator
 
@@ -1335,6 +1336,9 @@ def cancel_proxy(self: Parser, location: cython.int) -> Tuple[Optional[Node], cy
     return self._parse(location)
 
 
+# protects the initialization of grammar-classes upon their first instantiation
+GRAMMAR_CLASS_LOCK = threading.Lock()
+
 RESERVED_PARSER_NAMES = ('root__', 'dwsp__', 'wsp__', 'comment__', 'root_parser__', 'ff_parser__')
 
 
@@ -1701,7 +1705,9 @@ class Grammar:
         selected reference will be chosen. See PEP 520
         (www.python.org/dev/peps/pep-0520/) for an explanation of why.
         """
-        if cls.parser_initialization__[0] != "done" and cls != Grammar:
+        if cls.parser_initialization__[0] == "done" or cls == Grammar:  return
+        with GRAMMAR_CLASS_LOCK:
+            if cls.parser_initialization__[0] == "done":  return  # done by another thread, meanwhile
             cdict = cls.__dict__
             # cls.static_analysis_errors__ = []
             cls.parser_names__ = []
@@ -1846,11 +1852,11 @@ class Grammar:
                  or (static_analysis is None
                      and get_config_value('static_analysis') in {'early', 'late'}))):
             analysis_errors = self.static_analysis__()
-            # clears any stored errors without overwriting the pointer
-            while self.static_analysis_errors__:
-                self.static_analysis_errors__.pop()
-            self.static_analysis_errors__.extend(analysis_errors)
-            self.static_analysis_pending__.pop()
+            # clears any stored errors without overwriting the pointer. (Both lists
+            # are shared by all instances of the class, possibly in different threads!)
+            with GRAMMAR_CLASS_LOCK:
+                self.static_analysis_errors__[:] = analysis_errors
+                self.static_analysis_pending__.clear()
             # raise a GrammarError even if result only contains warnings.
             # It is up to the caller to decide whether to ignore warnings
             # # has_errors = any(is_error(tpl[-1].code) for tpl in result)
-- 
2.43.0


From 161eb67d12de29b34c4c4d2d80fce01286b3c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 118/155] fix: transformation tables shared by several threads

The first call of traverse() expands the table in place. If two threads did so
at the same time, one could see an empty table, skip all transformations and
even overwrite the table for good.
---
 DHParser/transform.py | 64 +++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 2cb184c..427767d 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -31,6 +31,7 @@ from __future__ import annotations
 import collections.abc
 from functools import partial, singledispatch, reduce
 import operator
+import threading
 from typing import AbstractSet, Callable, cast, Container, Dict, \
     Tuple, List, Sequence, Union, Optional
 
@@ -342,6 +343,33 @@ BLOCK_LEAVES = BlockLeaves()
 BLOCK_ANONYMOUS_LEAVES = BlockAnonymousLeaves()
 
 
+TABLE_EXPANSION_LOCK = threading.Lock()
+
+
+def expand_in_place(transformation_table: TransformationTableType):
+    """Expands the transformation table in place and adds an empty cache to the table."""
+    # normalize transformation_table entries by turning single values
+    # into lists with a single value
+    table = {name: cast(Sequence[Callable], smart_list(call))
+             for name, call in list(transformation_table.items())}
+    table = expand_table(table)
+    # substitute key for insignificant whitespace
+    assert '+' not in table, 'Symbol "+" in processing table is obsolete, use "<" instead'
+    if '~' in table:
+        if ':Whitespace' in table:
+            raise AssertionError(
+                '"~" is a synonym for ":Whitespace" in the processing table. '
+                'To avoid confusion, choose either of the two, but do not use '
+                'both at the same time!')
+        whitespace_transformation = table['~']
+        del table['~']
+        table[':Whitespace'] = whitespace_transformation
+    transformation_table.clear()
+    transformation_table.update(table)
+    # The cache must be added last, because it marks the table as expanded
+    transformation_table['__cache__'] = cast(TransformationDict, dict())
+
+
 def traverse(tree: Node,
              transformation_table: TransformationTableType,
              key_func: KeyFunc = key_node_name) -> Node:
@@ -384,33 +412,15 @@ def traverse(tree: Node,
     """
 
     # Is this optimization really needed?
-    if '__cache__' in transformation_table:
-        # assume that processing table has already been expanded
-        table = transformation_table               # type: TransformationTableType
-        cache = cast(TransformationDict, transformation_table['__cache__'])  # type: TransformationDict
-    else:
-        # normalize transformation_table entries by turning single values
-        # into lists with a single value
-        table = {name: cast(Sequence[Callable], smart_list(call))
-                 for name, call in list(transformation_table.items())}
-        table = expand_table(table)
-        # substitute key for insignificant whitespace
-        assert '+' not in table, 'Symbol "+" in processing table is obsolete, use "<" instead'
-        if '~' in table:
-            if ':Whitespace' in table:
-                raise AssertionError(
-                    '"~" is a synonym for ":Whitespace" in the processing table. '
-                    'To avoid confusion, choose either of the two, but do not use '
-                    'both at the same time!')
-            whitespace_transformation = table['~']
-            del table['~']
-            table[':Whitespace'] = whitespace_transformation
-        # cache expanded table
-        cache = cast(TransformationDict,
-                     table.setdefault('__cache__', cast(TransformationDict, dict())))
-        # change processing table in place, so its already expanded and cache filled next time
-        transformation_table.clear()
-        transformation_table.update(table)
+    if '__cache__' not in transformation_table:
+        with TABLE_EXPANSION_LOCK:
+            # the same table can be used by other threads at the same time
+            if '__cache__' not in transformation_table:
+                # change processing table in place, so its already expanded and cache filled next time
+                expand_in_place(transformation_table)
+    # now, the processing table has already been expanded
+    table = transformation_table               # type: TransformationTableType
+    cache = cast(TransformationDict, transformation_table['__cache__'])  # type: TransformationDict
 
     def split_filter(callables: Sequence[Callable]) -> Tuple[List[Filter], List[Callable]]:
         i = 0
-- 
2.43.0


From 1c987d8e1e2ad12c04f535b4309a3bf88b9624a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 119/155] fix: first use of the configuration by several
 threads at the same time

Every thread could create the store for thread-local variables (or the lock)
anew, thereby discarding the values another thread had already set.
---
 DHParser/configuration.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index b8be7dd..568b594 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -47,6 +47,7 @@ program and before any DHParser-function is invoked.
 
 from __future__ import annotations
 
+from _thread import allocate_lock
 import sys
 from typing import Dict, Any, Iterable, List
 
@@ -88,6 +89,7 @@ ALLOWED_PRESET_VALUES = dict()  # Dict[str, Union[Set, Tuple[int, int]]
 # dictionary that maps config variables to a set or range of allowed values
 
 
+INIT_LOCK = allocate_lock()  # protects the initialization of the following and of THREAD_LOCALS
 access_lock = None  # = threading.Lock()
 
 
@@ -96,9 +98,9 @@ def get_access_lock():  # -> threading.Lock()
     global access_lock
     if access_lock is None:
         import threading
-        lock = threading.Lock()
-        if access_lock is None:
-            access_lock = lock
+        with INIT_LOCK:
+            if access_lock is None:
+                access_lock = threading.Lock()
     return access_lock
 
 
@@ -421,18 +423,19 @@ def access_thread_locals() -> Any:
     global THREAD_LOCALS
     if THREAD_LOCALS is None:
         import threading
-        THREAD_LOCALS = threading.local()  # TODO: Use ContextVars, here!!!
+        with INIT_LOCK:
+            if THREAD_LOCALS is None:  # i.e. has not been initialized by another thread, meanwhile
+                THREAD_LOCALS = threading.local()  # TODO: Use ContextVars, here!!!
     return THREAD_LOCALS
 
 
 def _config_dict():
-    global THREAD_LOCALS
-    THREAD_LOCALS = access_thread_locals()
+    thread_locals = access_thread_locals()
     try:
-        cfg = THREAD_LOCALS.config
+        cfg = thread_locals.config
     except AttributeError:
-        THREAD_LOCALS.config = dict()
-        cfg = THREAD_LOCALS.config
+        thread_locals.config = dict()
+        cfg = thread_locals.config
     return cfg
 
 
-- 
2.43.0


From d4ed678a8c6477cb4ce19cb776371e1d13811dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:17 +0000
Subject: [PATCH 120/155] fix: character codes with the lead-in \x, \u, \U, %x
 or U+

Only the configured lead-in (0x) was removed from the code, so that characters
like \x41 - the notation the EBNF-serialization uses itself - led to invalid
Python code.
---
 DHParser/ebnf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index deb5ff0..da98666 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1003,8 +1003,13 @@ def transform_ebnf(cst: RootNode) -> RootNode:
 ########################################################################
 
 
+# lead-ins of character codes. CH_LEADIN, i.e. "0x" or the like, has already been removed
+RX_CHARACTER_LEADIN = re.compile(r'(?:%x|[Uu]\+|\\[xuU])')
+
+
 def serialize_character(path: Path, content: str) -> str:
     assert isinstance(content, str)
+    content = RX_CHARACTER_LEADIN.sub('', content, count=1)
     l = len(content)
     assert l <= 8
     d, prefix = (2, "\\x") if l <= 2 else (4, "\\u") if l <= 4 else (8, "\\U")
@@ -3667,7 +3672,7 @@ class EBNFCompiler(Compiler):
         return bytestr.decode()
 
     def extract_character(self, node: Node) -> str:
-        hexcode = node.content
+        hexcode = RX_CHARACTER_LEADIN.sub('', node.content, count=1)
         if len(hexcode) > 4:
             assert len(hexcode) <= 8
             code = '\\U' + (8 - len(hexcode)) * '0' + hexcode
-- 
2.43.0


From f3bdab0cc5a0393f013255442444aaffba577978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 121/155] fix: codes of characters with a special meaning
 inside character ranges

The escape sequence for the character was resolved by the generated Python-code,
so that codes for ], [, ^ and \ became part of the regular expression literally and
the expression was invalid or had a different meaning. (In the code generated by the
smartRE-methods, escape sequences inside ranges were escaped twice.)
---
 DHParser/ebnf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index da98666..ff394a2 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3648,7 +3648,7 @@ class EBNFCompiler(Compiler):
     def on_char_range(self, node) -> str:
         re_str, _ = self.smartRE_char_range(node)
         re_str = re_str[re_str.find('['): -1]
-        return f"{self.P['RegExp']}('{re_str}')"
+        return self.REGEXP_PARSER(re_str, False)
 
 
     def on_range_chain(self, node) -> Node:
@@ -3668,6 +3668,8 @@ class EBNFCompiler(Compiler):
 
     def extract_free_char(self, node: Node) -> str:
         assert len(node.content) == 1 or (node.content[0:1] == '\\' and len(node.content) == 2), node.content
+        if len(node.content) == 2:
+            return node.content  # is already an escape sequence of a regular expression
         bytestr = node.content.encode('unicode-escape')
         return bytestr.decode()
 
@@ -3689,7 +3691,7 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return f"{self.P['RegExp']}('[{self.extract_character(node)}]')"
+        return self.REGEXP_PARSER(f'[{self.extract_character(node)}]', False)
         # return "RegExp('%s')" % self.extract_character(node)
 
 
-- 
2.43.0


From 7b02831e64402adbe8cdf05eaec84719fad18664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 122/155] fix: @drop = regexps had no effect on characters and
 character ranges

unless they had been optimized to a SmartRE-parser.
---
 DHParser/ebnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ff394a2..1c4366a 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3648,7 +3648,7 @@ class EBNFCompiler(Compiler):
     def on_char_range(self, node) -> str:
         re_str, _ = self.smartRE_char_range(node)
         re_str = re_str[re_str.find('['): -1]
-        return self.REGEXP_PARSER(re_str, False)
+        return self.REGEXP_PARSER(re_str, self.drop_on(DROP_REGEXP))
 
 
     def on_range_chain(self, node) -> Node:
@@ -3691,7 +3691,7 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return self.REGEXP_PARSER(f'[{self.extract_character(node)}]', False)
+        return self.REGEXP_PARSER(f'[{self.extract_character(node)}]', self.drop_on(DROP_REGEXP))
         # return "RegExp('%s')" % self.extract_character(node)
 
 
-- 
2.43.0


From 5dde04663de8fadc34cc7fe75c941046202957e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 123/155] fix: the characters 0x got lost in character classes
 like /[0xab]/

because they were mistaken for the lead-in of a character code, although regular
expressions do not know this notation.
---
 DHParser/ebnf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 1c4366a..f83d9a0 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -951,7 +951,10 @@ EBNF_AST_transformation_table = {
     "char_range, range_chain":
         [flatten, remove_tokens('[', ']')],
     "character":
-        [remove_children('CH_LEADIN'), reduce_single_child],
+        # inside regular expressions, "0x" does not introduce a character code
+        [remove_children_if(lambda path: path[-1].name == 'CH_LEADIN'
+                                         and not any(nd.name == 'char_ranges' for nd in path)),
+         reduce_single_child],
     "free_char":
         [],
     (TOKEN_PTYPE, WHITESPACE_PTYPE, "whitespace"):
@@ -1009,6 +1012,8 @@ RX_CHARACTER_LEADIN = re.compile(r'(?:%x|[Uu]\+|\\[xuU])')
 
 def serialize_character(path: Path, content: str) -> str:
     assert isinstance(content, str)
+    if any(nd.name == 'char_ranges' for nd in path):
+        return content  # part of a regular expression
     content = RX_CHARACTER_LEADIN.sub('', content, count=1)
     l = len(content)
     assert l <= 8
-- 
2.43.0


From 47025c79188f4cdbabe58fae87c07cfaa260f231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:42 +0000
Subject: [PATCH 124/155] fix: character codes like 0x61 at the beginning of a
 group or repetition

were mistaken for a multiplier, so that, for example, "{ 0x61 }" was rejected.
---
 DHParser/ebnf.py                   | 4 ++--
 DHParser/ebnf_flavors/heuristic.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index f83d9a0..7ca6ba5 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -452,7 +452,7 @@ class ConfigurableEBNFGrammar(Grammar):
 
         range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
         no_range   = !multiplier | &multiplier TIMES   # should that be &(multiplier TIMES)??
-        multiplier = /\d+/~
+        multiplier = /(?!0x)\d+/~
 
 
         #: leaf-elements
@@ -555,7 +555,7 @@ class ConfigurableEBNFGrammar(Grammar):
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])',
diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index 1ab926a..9919882 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -208,7 +208,7 @@ class HeuristicEBNFGrammar(Grammar):
 
         range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
         no_range   = !multiplier | &multiplier :TIMES
-        multiplier = /\d+/~
+        multiplier = /(?!0x)\d+/~
 
 
         #: leaf-elements
@@ -357,7 +357,7 @@ class HeuristicEBNFGrammar(Grammar):
                       Option(Pop(RE_LEADOUT, match_func=optional_last_value))))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])',
-- 
2.43.0


From 13109ee8fec2c9b993658ac96c3e2a4b2dd11f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:08 +0000
Subject: [PATCH 125/155] fix: crash on bracketed definiens that falls under
 the @drop-directive

like in "@drop = strings" and "symbol = ('text')", because the content of the
named symbol was dropped in contrast to the definiens without brackets.
---
 DHParser/ebnf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 7ca6ba5..25e2b70 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3473,7 +3473,12 @@ class EBNFCompiler(Compiler):
 
 
     def drop_on(self, category):
-        return category in self.directives.drop and self.path[-2].name != "definition"
+        if category not in self.directives.drop:
+            return False
+        i = -2
+        while self.path[i].name == "group":  # symbol = ("text") is the same as symbol = "text"
+            i -= 1
+        return self.path[i].name != "definition"
 
 
     def TEXT_PARSER(self, text, drop):
-- 
2.43.0


From cfd20dc3bd812f3ed59e90d14dac96d1e7ba99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:11 +0000
Subject: [PATCH 126/155] fix: crash when a mandatory item was missing in a
 dropped sequence

The error was raised with the EMPTY_NODE which cannot carry a position or children.
---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f321d54..805e771 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4516,6 +4516,8 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
+            if ret_node is EMPTY_NODE:  # content is to be dropped, but the error must be kept
+                ret_node = Node(self.node_name, tuple(results))
             raise ParserError(self, ret_node if ret_node._pos >= 0 else ret_node.with_pos(location),
                               location_ - location,
                               location, error, first_throw=True)
@@ -4641,6 +4643,8 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
+            if nd is EMPTY_NODE:  # content is to be dropped, but the error must be kept
+                nd = Node(self.node_name, tuple(results))
             raise ParserError(self, nd if nd._pos >= 0 else nd.with_pos(location),
                               location_ - location,
                               location, error, first_throw=True)
-- 
2.43.0


From 2bdfcbb3bdf0f69e4ebeae2bd92a8e52e88e01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:37 +0000
Subject: [PATCH 127/155] fix: regular expressions ending with double brackets
 in combination with @drop = regexps

Removing the Drop-clause in definitions of the form "symbol = /(a(b))/ ~" also removed
brackets from the regular expression.
---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 25e2b70..cae86b7 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2856,7 +2856,8 @@ class EBNFCompiler(Compiler):
                      if arg not in EBNFCompiler.COMMENT_OR_WHITESPACE]) == 1
             and all((arg.startswith(drop_regexp) or arg.startswith(drop_text)
                      or arg in EBNFCompiler.COMMENT_OR_WHITESPACE) for arg in arguments)):
-            arguments = [arg.replace(drop_clause, '').replace('))', ')') for arg in arguments]
+            arguments = [arg[len(drop_clause):-1] if arg.startswith(drop_clause) else arg
+                         for arg in arguments]
         return parser_class + '(' + ', '.join(arguments) + ')'
 
 
-- 
2.43.0


From 5919163970fc93391664d3c7a751cd41c3653fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:57 +0000
Subject: [PATCH 128/155] fix: whitespace vanished everywhere if some part of
 the grammar was dropped

_propagate_drop() sets the drop_content-flag of all unnamed parsers inside a
dropped parser. However, the whitespace-parser "wsp__" is one and the same
object everywhere in the grammar. Thus, a single "-> DROP" on a part that
contains insignificant whitespace removed the whitespace from all other
parts of the syntax-tree as well.
---
 DHParser/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 805e771..8f2919d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1347,10 +1347,12 @@ def reset_parser(parser):
 
 
 def _propagate_drop(p: Parser):
-    """propagates the drop_content flag to all unnamed children."""
+    """propagates the drop_content flag to all unnamed children. The
+    whitespace-parser is left out, because the same parser-object is used in
+    all those places where the whitespace must not be dropped."""
     assert p.drop_content
     for c in p.sub_parsers:
-        if not c.pname:
+        if not c.pname and not isinstance(c, Whitespace):
             c.drop_content = True
             _propagate_drop(c)
 
-- 
2.43.0


From 3a38350cea5b3319554aca0b7108ad5f4c53c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:27 +0000
Subject: [PATCH 129/155] fix: skip-nodes were always numbered with the last
 search-rule

According to the documentation, the "_R{nr}__"-suffix of the name of the
skip- or resume-node contains the number of the search-rule that yielded
the reentry-point. In fact, it always contained the number of search-rules.
---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 8f2919d..ef3d577 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -420,6 +420,7 @@ def reentry_point(rest: StringView,
 
     # find the closest match
     nr = 0
+    closest_nr = 0
     for nr, rule in enumerate(rules, 1):
         comments = rest.finditer(comment_regex)
         if isinstance(rule, Parser):
@@ -454,12 +455,13 @@ def reentry_point(rest: StringView,
             if pos < closest_match:
                 skip_node = None
                 closest_match = pos
+                closest_nr = nr
 
     # in case no rule matched return -1
     if closest_match == upper_limit:
         closest_match = -1
     if skip_node is None:
-        skip_node = Node(f'{skip_node_name}_R{nr}__', rest[:max(closest_match, 0)])
+        skip_node = Node(f'{skip_node_name}_R{closest_nr or nr}__', rest[:max(closest_match, 0)])
     return closest_match, skip_node
 
 
-- 
2.43.0


From f8633fa4b63697c40d5d125451b10a4b01f3d3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 130/155] fix: endless loop when searching a reentry-point with
 a plain string

If a string-search-rule did not match any more, but there was a comment at
the very beginning of the searched text, the "match" at position -1 was
taken for a match inside the comment, and the search was repeated endlessly.
---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index ef3d577..a0b2f9b 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -412,7 +412,7 @@ def reentry_point(rest: StringView,
         while a < b <= k + length:
             a, b = next_comment()
         # find next as long as start or end point of resume regex are inside a comment
-        while (a < k < b) or (a < k + length < b):
+        while k >= 0 and ((a < k < b) or (a < k + length < b)):
             k, length = search_func(search_rule, b)
             while a < b <= k:
                 a, b = next_comment()
-- 
2.43.0


From 60eb8eabdf7b875fff14057c249529aa7abcbd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:33 +0000
Subject: [PATCH 131/155] fix: resumed text was inserted in the middle of a
 node

If an item was missing, so that the skip-rule did not need to skip any text,
and there was a further error in the same sequence after which the
resume-rule took effect, the skipped text was stored in the first (empty)
skip-node rather than at the end. Thus, the content of the tree was not the
same as the document any more.
---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index a0b2f9b..7e9b10d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -699,7 +699,9 @@ class Parser:
             assert pe.node._children or (not pe.node.result)
             # apply reentry-rule or catch error at root-parser
             if i < 0:  i = 0
-            zombie = pe.node.pick_child(artifact)  # type: Optional[Node]
+            # the text that has been skipped belongs to the last artifact. (Earlier
+            # artifacts that are empty mark missing items in the middle of the node.)
+            zombie = pe.node.pick_child(artifact, reverse=True)  # type: Optional[Node]
             if zombie and not zombie.result:
                 zombie.result = rest[:i]
                 zombie.name = skip_node.name
-- 
2.43.0


From c40c35e92916b817bbff45418287117919f07c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:44 +0000
Subject: [PATCH 132/155] fix: literals and regular expressions with quotation
 marks yielded broken Python-code
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Escaped quotation marks in literals ("\""), quotation marks in ’-quoted literals,
both kinds of quotation marks in plaintext, quotation marks in the literals
and regular expressions of the directives @whitespace, @comment, @.._skip,
@.._resume, @.._error, as well as adjacent string literals with different quotation
marks were passed on to the generated Python-code in such a way that the latter
contained syntax-errors. Plus, backslashes in literals in directives were doubled, so
that a search for such a literal failed.
---
 DHParser/ebnf.py | 91 ++++++++++++++++++++++++++----------------------
 1 file changed, 50 insertions(+), 41 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index cae86b7..8f1dded 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -268,7 +268,7 @@ from DHParser.preprocess import PreprocessorFunc, PreprocessorResult, gen_find_i
     preprocess_includes, make_preprocessor, chain_preprocessors
 from DHParser.nodetree import Node, RootNode, Path, WHITESPACE_PTYPE, KEEP_COMMENTS_PTYPE, \
     TOKEN_PTYPE, ZOMBIE_TAG, flatten_sxpr, parse_sxpr
-from DHParser.toolkit import load_if_file, wrap_str_literal, escape_ctrl_chars, md5, \
+from DHParser.toolkit import load_if_file, wrap_str_literal, md5, \
     sane_parser_name, re, expand_table, unrepr, compile_python_object, deprecated, \
     ThreadLocalSingletonFactory, Any, Iterable, Sequence, Set, AbstractSet, Union, Dict, List, \
     Tuple, FrozenSet, MutableSet, Optional, Type, Callable, Container, TypeAlias, \
@@ -1521,6 +1521,15 @@ class EBNFCompilerError(CompilerError):
     pass
 
 
+def as_raw_literal(s: str) -> str:
+    """Returns the Python-source-code for a string-literal containing `s`,
+    preferrably (and if possible) in the more readable "raw"-notation."""
+    if s.isprintable() and not s.endswith('\\'):
+        for q in ("'", '"'):
+            if q not in s:  return ''.join(['r', q, s, q])
+    return repr(s)
+
+
 class EBNFCompiler(Compiler):
     r"""
     Generates a Parser from an abstract syntax tree of a grammar specified
@@ -1875,8 +1884,7 @@ class EBNFCompiler(Compiler):
         value = node.content
         if node.name in ('literal', 'plaintext'):
             assert value
-            assert value[0] + value[-1] in ('""', "''", "``")
-            value = re.escape(value[1:-1])
+            value = re.escape(self.literal_text(value))
         else:
             assert node.name == "regexp"""
         value = self.check_rx(node, value)
@@ -1903,10 +1911,10 @@ class EBNFCompiler(Compiler):
             nonempty_ws = mixin_nonempty(super_ws)
             search_regex = self.extract_regex(nd)\
                 .replace(r'\~!', nonempty_ws).replace(r'\~', super_ws)
-            return unrepr("re.compile(r'%s')" % search_regex)
+            return unrepr("re.compile(%s)" % as_raw_literal(search_regex))
         elif nd.name == 'literal':
-            s = nd.content[1:-1]  # remove quotation marks
-            return unrepr(f"re.compile(r'(?={re.escape(s)})')")
+            s = self.literal_text(nd.content)
+            return unrepr("re.compile(%s)" % as_raw_literal(f"(?={re.escape(s)})"))
         elif nd.name == 'procedure':
             proc_name = nd.content
             self.py_symbols.add(proc_name)
@@ -2135,7 +2143,7 @@ class EBNFCompiler(Compiler):
             definitions.append((EBNFCompiler.RAW_WS_PARSER_KEYWORD,
                                 "Whitespace(%s)" % EBNFCompiler.RAW_WS_KEYWORD))
         definitions.append((EBNFCompiler.RAW_WS_KEYWORD,
-                            "r'{}'".format(self.directives.whitespace)))
+                            as_raw_literal(self.directives.whitespace)))
         comment_rx = ("re.compile(%s)" % EBNFCompiler.COMMENT_KEYWORD) \
             if self.directives.comment else "RX_NEVER_MATCH"
         if EBNFCompiler.COMMENT_PARSER_KEYWORD in self.required_keywords:
@@ -2143,7 +2151,7 @@ class EBNFCompiler(Compiler):
                                 "RegExp(%s)" % EBNFCompiler.COMMENT_RX_KEYWORD))
         definitions.append((EBNFCompiler.COMMENT_RX_KEYWORD, comment_rx))
         definitions.append((EBNFCompiler.COMMENT_KEYWORD,
-                            "r'{}'".format(self.directives.comment)))
+                            as_raw_literal(self.directives.comment)))
 
         # prepare and add resume-rules
 
@@ -2544,21 +2552,15 @@ class EBNFCompiler(Compiler):
     @staticmethod
     def join_literals(nd):
         assert nd.name == "literals"
-        parts = [nd.children[0].content[:-1]]
-        for child in nd.children[1:-1]:
-            parts.append(child.content[1:-1])
-        parts.append(nd.children[-1].content[1:])
-        nd.result = "".join(parts)
+        text = ''.join(EBNFCompiler.literal_text(child.content) for child in nd.children)
+        nd.result = ''.join(['"', text.replace('"', '\\"'), '"'])
         nd.name = "literal"
 
 
     def on_directive(self, node: Node) -> str:
         for child in node.children:
-            if child.name == "literal":
-                child.result = escape_ctrl_chars(child.content)
-            elif child.name == "literals":
+            if child.name == "literals":
                 self.join_literals(child)
-                child.result = escape_ctrl_chars(child.content)
 
         key = node.children[0].content
         assert key not in self.directives.tokens
@@ -2735,17 +2737,18 @@ class EBNFCompiler(Compiler):
         elif key.endswith('_error'):
             check_argnum(2)
             symbol = key[:-6]
+            message = lambda nd: unrepr(self.python_literal(nd.content) if nd.name == 'literal'
+                                        else nd.content)
             error_msgs = self.directives.error.get(symbol, [])
             if node.children[1 if len(node.children) == 2 else 2].name != 'literal':
                 self.tree.new_error(
                     node, 'Directive "%s" requires message string or a pair ' % key
                     + '(regular expression or search string, message string) as argument!')
             if len(node.children) == 2:
-                error_msgs.append(('', unrepr(node.children[1].content)))
+                error_msgs.append(('', message(node.children[1])))
             elif len(node.children) == 3:
                 rule = self.make_search_rule(node, node.children[1], 'error')
-                error_msgs.append((rule if rule else unrepr(node.children[1].content),
-                                   unrepr(node.children[2].content)))
+                error_msgs.append((rule, message(node.children[2])))
             else:
                 self.tree.new_error(node, 'Directive "%s" allows at most two parameters' % key)
             self.directives.error[symbol] = error_msgs
@@ -3517,6 +3520,26 @@ class EBNFCompiler(Compiler):
         return self.on_literal(node)
 
 
+    @staticmethod
+    def literal_text(literal: str) -> str:
+        """Returns the text of a literal or plaintext without the enclosing
+        quotation marks. Other than escaped quotation marks, backslashes
+        are not interpreted, i.e. they stand for themselves."""
+        q = literal[0:1]
+        text = literal[1:-1]
+        return text.replace('\\' + q, q) if q in ('"', "'", "’") else text
+
+    @staticmethod
+    def python_literal(literal: str) -> str:
+        """Returns the source-code of a Python-string-literal for the given
+        literal or plaintext."""
+        text = EBNFCompiler.literal_text(literal)
+        q = literal[0:1]
+        if q not in ('"', "'"):
+            q = "'" if '"' in text and "'" not in text else '"'
+        return ''.join([q, ''.join('\\' + c if c in ('\\', q) else c if c.isprintable()
+                                   else repr(c)[1:-1] for c in text), q])
+
     def prepare_literal(self, node: Node) -> Tuple[str, str, str]:
         """Returns content, left_whitespace, right_whitspace for a literal-node."""
         assert node.name == "literal"
@@ -3525,11 +3548,7 @@ class EBNFCompiler(Compiler):
             else self.directives.literalws
         left = self.WSPC_PARSER(force) if 'left' in lws else ''
         right = self.WSPC_PARSER(force) if 'right' in lws else ''
-        # content = escape_ctrl_chars(node.content)
-        content = node.content
-        if (content[:1] + content[-1:]) == "’’":
-            content = '"' + content[1:-1].replace('"', r'\"') + '"'
-        return content, left, right
+        return node.content, left, right
 
     def whitespace_rx(self, ws: str) -> str:
         # TODO: doctests required
@@ -3573,7 +3592,7 @@ class EBNFCompiler(Compiler):
         possibly combined with adjacent whitespace containing comments.
         """
         content, left, right = self.prepare_literal(node)
-        pattern = self.literal_rx(content[1:-1], left, right, escape_braces=True)
+        pattern = self.literal_rx(self.literal_text(content), left, right, escape_braces=True)
         if left or right:
             pattern = ''.join(["(?:", pattern, ")"])
         return pattern, content
@@ -3582,15 +3601,11 @@ class EBNFCompiler(Compiler):
         # TODO: Tests
         content, left, right = self.prepare_literal(node)
         if 'literal' in self.directives.optimizations and (left and right):
-            q = content[0]
-            literal = self.literal_rx(content[1:-1], left, right, escape_braces=True)
-            rxp = ''.join(['fr', q, literal, q])
+            literal = self.literal_rx(self.literal_text(content), left, right, escape_braces=True)
+            rxp = 'f' + as_raw_literal(literal)
             rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
-            content = escape_ctrl_chars(content)
-            content = ''.join([q, '\\', content[:-1], '\\', content[-1], q])
-            return f"{self.P['SmartRE']}({rxp}, {content})"
-        content = escape_ctrl_chars(content)
-        center = self.TEXT_PARSER(content, self.drop_on(DROP_STRINGS))
+            return f"{self.P['SmartRE']}({rxp}, {repr(content)})"
+        center = self.TEXT_PARSER(self.python_literal(content), self.drop_on(DROP_STRINGS))
         if left or right:
             args = ", ".join(item for item in (left, center, right) if item)
             return f'{self.P["Series"]}({args})'
@@ -3602,13 +3617,7 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), node.content
 
     def on_plaintext(self, node: Node) -> str:
-        tk = escape_ctrl_chars(node.content)
-        rpl = '"' if tk.find('"') < 0 else "'" if tk.find("'") < 0 else ''
-        if rpl:
-            tk = rpl + tk[1:-1] + rpl
-        else:
-            tk = rpl + tk.replace('"', r'\"')[1:-1] + rpl
-        return self.TEXT_PARSER(tk, self.drop_on(DROP_BACKTICKED))
+        return self.TEXT_PARSER(self.python_literal(node.content), self.drop_on(DROP_BACKTICKED))
 
 
     def smartRE_regexp(self, node: Node) -> Tuple[str, str]:
-- 
2.43.0


From 298e87565e28ee5ae07f88c4c79f4b4a12464381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:35 +0000
Subject: [PATCH 133/155] fix: parser-based search-rules overwrote each other

If there was more than one bracketed PEG-expression in the skip- and
resume-directives of a symbol (or of several symbols with the same prefix, like
"b_c" and "b_d"), all these search-rules were given the same name, so that only the
last one was ever used. Bracketed single symbols, e.g. "@ a_skip = (b)", and symbols
like "a_skip_x" let the compiler crash.
---
 DHParser/ebnf.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8f1dded..54c9e90 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1927,17 +1927,14 @@ class EBNFCompiler(Compiler):
             # create a parser-based search rule
             symbol = node.children[0].content.split('_')[0]
             stub = f"{symbol}_{kind}_"
-            L = len(stub)
             nr = 1
-            for rule in self.rules.keys():
-                if rule[:L] == stub:
-                    i = int(rule[L:].strip('_'))
-                    if i > nr:  nr = i + 1
-            rule = stub + str(nr) + '__'
+            while f"{stub}{nr}__" in self.rules:  nr += 1
+            rule = f"{stub}{nr}__"
             self.current_symbols = [node]
             self.rules[rule] = self.current_symbols
             defn = self.compile(nd)
-            assert defn.find("(") >= 0  # synonyms are impossible here
+            if defn.find("(") < 0:  # e.g. "(symbol)"
+                defn = f'{self.P["Synonym"]}({defn})'
             self.definitions[rule] = defn
             self.referred_otherwise.add(rule)
             return unrepr(rule)
-- 
2.43.0


From f3dbbb2c94d20c441b175d897ad8d20d73c1a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 134/155] fix: grammars that retrieve a recursively defined
 symbol could not be compiled

Recursively defined symbols are shielded by a Forward-parser, which class Retrieve is
otherwise well prepared for, but which its constructor did not accept.
---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 7e9b10d..e88cdfa 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5025,7 +5025,8 @@ class Retrieve(ContextSensitive):
     """
 
     def __init__(self, symbol: Parser, match_func: Optional[MatchVariableFunc] = None) -> None:
-        assert isinstance(symbol, Capture)
+        # recursively defined symbols are shielded by a Forward-parser
+        assert isinstance(symbol, (Capture, Forward))
         super().__init__(symbol)
         self.match = match_func if match_func else last_value
 
@@ -5091,7 +5092,7 @@ class Retrieve(ContextSensitive):
                 return None, location
             else:
                 node = Node(tn, '', True).with_pos(location)
-                dsl_error(self, node, "'{self.symbol_pname}' undefined or exhausted.",
+                dsl_error(self, node, f"'{self.symbol_pname}' undefined or exhausted.",
                           UNDEFINED_RETRIEVE)
                 return node, location
         if value is None:
-- 
2.43.0


From 13c1da89eeebeda83492b4638b28219cc76529d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:24 +0000
Subject: [PATCH 135/155] fix: the EBNF-compiler crashed or hung on some faulty
 grammars

- lookbehind of a symbol that is defined as a synonym of itself led to an endless loop
- lookbehind of a symbol the definition of which is a compound expression containing
  just one other symbol was not reported as error (and then raised an AssertionError),
  while a modifier in front of the definition let an error be reported falsely
- if an error had already been reported, e.g. that a Lookbehind contains something else
  than a regular expression, the static analysis could still raise an AssertionError
  (or a SyntaxError in case a Python-keyword was used as name of an undefined symbol)
---
 DHParser/ebnf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 54c9e90..c149aed 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2441,10 +2441,13 @@ class EBNFCompiler(Compiler):
                     python_src = python_src.replace(
                         'static_analysis_pending__ = [True]',
                         'static_analysis_pending__ = []  # type: List[bool]', 1)
-            except (TypeError, AttributeError) as te_ae:
+            except (TypeError, AttributeError, AssertionError) as te_ae:
                 if not (errors or self.tree.errors):
                     raise te_ae  # not merely a consequntial error of another reported error
             except SyntaxError as se:
+                if has_errors(self.tree.errors, ERROR):
+                    # merely a consequential error, e.g. an undefined symbol is a Python-keyword
+                    return python_src
                 src_lines = probe_src.split('\n')
                 se.msg += f' "{src_lines[se.lineno - 1]}" '
                 raise se
@@ -3281,14 +3284,13 @@ class EBNFCompiler(Compiler):
                 nd = node
                 if len(nd.children) >= 1:
                     nd = nd.children[0]
-                while nd.name == "symbol":
+                visited = set()
+                while nd.name == "symbol" and nd.content not in visited:
+                    visited.add(nd.content)
                     symlist = self.rules.get(nd.content, [])
-                    if len(symlist) == 2:
-                        nd = symlist[1]
-                    else:
-                        if len(symlist) == 1:
-                            nd = symlist[0].children[1]
-                        break
+                    if symlist and symlist[0].name == "definition":
+                        definition = symlist[0]
+                        nd = definition.children[2 if definition[0].name == "modifier" else 1]
                 # content = nd.content
                 if nd.name not in ("regexp", "char_ranges"):
                     self.tree.new_error(node, "Lookbehind-parser can only be used with RegExp"
-- 
2.43.0


From db8c683b008cb9fbcf4d834778787f89694c4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 136/155] fix: a crash after earlier errors could not be
 reported if it occurred in a new node

If the compiler (or any other stage) crashed because of earlier errors while
processing a node without position, reporting the crash raised an AssertionError.
---
 DHParser/compile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index ff28aa4..0569ffe 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -611,7 +611,9 @@ def process_tree(tp: CompilerFunc, tree: RootNode) -> Any:
             try:
                 result = tp(tree)
             except Exception as e:
-                node = (getattr(tp, 'path', [tree]) or [tree])[-1]
+                path = getattr(tp, 'path', [tree]) or [tree]
+                # nodes that have been created during processing may not have a position, yet
+                node = next((nd for nd in reversed(path) if nd._pos >= 0), tree)
                 import traceback
                 st = traceback.format_list(traceback.extract_tb(e.__traceback__))
                 for i in range(1, len(st)):  # find last call in client-code
-- 
2.43.0


From aac5b308f6e0eea17f4ea4a5808a900fa9a647eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 137/155] fix: left-over values of recursively defined symbols
 raised an AttributeError

The capture-stack lists symbols, the parsers of which can be shielded by a
Forward-parser.
---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index e88cdfa..b3c25b6 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2226,7 +2226,8 @@ class Grammar:
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
             if has_non_autocaptured_symbols(parser):
-                if all(cast(Capture, self[v]).can_capture_zero_length
+                if all(cast(Capture, getattr(self[v], 'parser', self[v])
+                            if isinstance(self[v], Forward) else self[v]).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
                 elif parser is self.root_parser__:
-- 
2.43.0


From e1d2fc2457a3d455cadb625972f9e09aee71d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 138/155] fix: retrieving symbols that are hidden or dropped by
 a modifier was not reported

If the modifier ("HIDE:", "DROP:" ...) was found only after the retrieve-operator, no
error was reported. With "DROP:" the parser then raised an AssertionError.
---
 DHParser/ebnf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index c149aed..ce3a89d 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3334,6 +3334,14 @@ class EBNFCompiler(Compiler):
         if match_func != 'last_value':
             custom_args = ['match_func=%s' % match_func]
 
+        def verify_not_disposable():
+            # symbols can be declared as disposable by a modifier, later on
+            if re.match(self.directives.disposable, arg):
+                self.tree.new_error(
+                    node, 'Retrieve operator "%s" does not work with disposable parsers like %s'
+                    % (prefix, arg))
+        self.deferred_tasks.append(verify_not_disposable)
+
         self.variables.setdefault(arg, []).append(usage)
         parser_class = self.PREFIX_TABLE[prefix]
         return self.non_terminal(node, parser_class, custom_args)
-- 
2.43.0


From 8ec26d2350dac7c6e51956a205aa285b192528bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 139/155] fix: parsers as condition of an error-directive let
 the compiler crash

Only regular expressions and strings are allowed as conditions for customized
error messages, but symbols and PEG-expressions were silently translated to
Python code that raised a NameError (or an AssertionError later when parsing).
---
 DHParser/ebnf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ce3a89d..942f8d5 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2747,8 +2747,13 @@ class EBNFCompiler(Compiler):
             if len(node.children) == 2:
                 error_msgs.append(('', message(node.children[1])))
             elif len(node.children) == 3:
-                rule = self.make_search_rule(node, node.children[1], 'error')
-                error_msgs.append((rule, message(node.children[2])))
+                if node.children[1].name in ('regexp', 'literal', 'procedure'):
+                    rule = self.make_search_rule(node, node.children[1], 'error')
+                    error_msgs.append((rule, message(node.children[2])))
+                else:
+                    self.tree.new_error(
+                        node, 'The condition of directive "%s" must be a regular expression or a '
+                        'search string, not a %s!' % (key, node.children[1].name))
             else:
                 self.tree.new_error(node, 'Directive "%s" allows at most two parameters' % key)
             self.directives.error[symbol] = error_msgs
-- 
2.43.0


From f354aae6dcd15a2a90f40059480c8100562fd452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 140/155] fix: undefined symbols in skip- and resume-directives
 were not reported

Instead, the compiler crashed with a NameError.
---
 DHParser/ebnf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 942f8d5..dd10f44 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1922,6 +1922,7 @@ class EBNFCompiler(Compiler):
         elif nd.name == 'symbol':
             referred_symbol = nd.content.strip()
             self.referred_otherwise.add(referred_symbol)
+            self.symbols.setdefault(referred_symbol, []).append(nd)
             return unrepr(referred_symbol)
         else:
             # create a parser-based search rule
-- 
2.43.0


From 3486bdef075fab23e630da7e7ac12b7bcef089e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:16 +0000
Subject: [PATCH 141/155] fix: faulty directives let the EBNF-compiler crash

- malformed regular expressions in @whitespace, @comment or @disposable
- filters for symbols that are not defined
- retrieval of preprocessor tokens
- a hidden symbol that is retrieved within its own definition
---
 DHParser/ebnf.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index dd10f44..4796a46 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1530,6 +1530,14 @@ def as_raw_literal(s: str) -> str:
     return repr(s)
 
 
+def is_valid_regex(rx: str) -> bool:
+    try:
+        re.compile(rx)
+    except re.error:
+        return False
+    return True
+
+
 class EBNFCompiler(Compiler):
     r"""
     Generates a Parser from an abstract syntax tree of a grammar specified
@@ -2115,7 +2123,7 @@ class EBNFCompiler(Compiler):
         if self.variables:
             for i, (symbol, code) in enumerate(definitions):
                 if symbol in self.variables:
-                    if set(self.symbols[symbol]) - set(self.variables[symbol]):
+                    if set(self.symbols.get(symbol, [])) - set(self.variables[symbol]):
                         code = f'Capture({code}, zero_length_warning=True)'
                     else:
                         code = f'Capture({code}, zero_length_warning=False)'
@@ -2327,7 +2335,7 @@ class EBNFCompiler(Compiler):
                                     'Filter declared for non-existent symbol "%s"' % symbol,
                                     WARNING)
             else:
-                if not self.definitions[symbol][:8] == 'Capture(':
+                if not self.definitions.get(symbol, 'Capture(')[:8] == 'Capture(':
                     self.tree.new_error(directive_node(self.tree, symbol + '_filter'),
                                         'Filter declared for uncaptured symbol "%s"' % symbol,
                                         WARNING)
@@ -2431,7 +2439,7 @@ class EBNFCompiler(Compiler):
                     'static_analysis_pending__ = []  # type: List[bool]', 1)
             except NameError as ne:
                 try:
-                    if ne.name not in self.symbols:
+                    if ne.name not in self.symbols and not has_errors(self.tree.errors, ERROR):
                         # undefined symbols in the grammar have already been caught and reported
                         raise ne
                 except AttributeError:
@@ -2593,7 +2601,9 @@ class EBNFCompiler(Compiler):
                         f'Expected: {VALID_DIRECTIVES[key]}')
             else:
                 value = self.extract_regex(node.children[1])
-                if key == 'whitespace':
+                if not is_valid_regex(value):
+                    value = ''  # error has already been reported by self.extract_regex()
+                elif key == 'whitespace':
                     if not re.match(value, ''):
                         self.tree.new_error(node, f"Implicit whitespace should "
                             f"always match the empty string, /{value}/ does not.")
@@ -2609,7 +2619,9 @@ class EBNFCompiler(Compiler):
                     self.tree.new_error(node, f'Directive "@{key}" can only have one argument'
                                         ' if specified as regexp and not as a list of symbols.')
                 re_pattern = node.children[1].content
-                if re.match(re_pattern, ''):
+                if not is_valid_regex(self.check_rx(node, re_pattern)):
+                    pass  # error has already been reported by self.check_rx()
+                elif re.match(re_pattern, ''):
                     self.tree.new_error(
                         node, "The regular expression r'%s' matches any symbol, "
                         "which is not allowed!" % re_pattern)
-- 
2.43.0


From 8e0fc737033fcbbc00d95f3e6e78eaa94363aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 142/155] fix: symbols defined as a dropped symbol yielded an
 AssertionError

---
 DHParser/ebnf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 4796a46..80cc128 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3104,6 +3104,9 @@ class EBNFCompiler(Compiler):
         assert node[1].name in ('drop', 'skip')  # 'skip' is left for backwards compatibility
         term_code = self.compile(node[0])
         if node[0].name == "symbol":
+            if self.current_symbols and len(self.path) >= 2 \
+                    and self.path[-2].name in ("definition", "macrodef"):
+                self.directives.add_to_disposable_symbols(self.current_symbols[0][0].content)
             return f'{self.P["DropFrom"]}({term_code})'
         elif self.current_symbols and len(self.path) >=2 \
                 and self.path[-2].name in ("definition", "macrodef"):
-- 
2.43.0


From ba7b94c516e44e72b13227663b57e2117f9c005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 143/155] fix: global flags in comment-, whitespace- or
 disposable-regexes raised an error

(Global flags are not allowed elsewhere than at the start of a regular expression.)
---
 DHParser/ebnf.py  |  5 +++--
 DHParser/parse.py | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 80cc128..0dba0dc 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -259,7 +259,7 @@ from DHParser.error import Error, AMBIGUOUS_ERROR_HANDLING, WARNING, REDECLARED_
     WRONG_NUMBER_OF_ARGUMENTS, UNKNOWN_MACRO_ARGUMENT, AMBIGUOUS_RANGE_EXPRESSION_WARNING, \
     UNDEFINED_MACRO, RECURSIVE_MACRO_CALL, UNUSED_MACRO_ARGUMENTS_WARNING, \
     NAME_SHADOWED_BY_DROP_CLASS_NOTICE, has_errors
-from DHParser.parse import Parser, Grammar, mixin_comment, mixin_nonempty, Forward, RegExp, SmartRE, \
+from DHParser.parse import Parser, Grammar, mixin_comment, mixin_nonempty, scoped_flags, Forward, RegExp, SmartRE, \
     Drop, DropFrom, Lookahead, NegativeLookahead, Alternative, Series, Option, ZeroOrMore, OneOrMore, \
     Text, Capture, Retrieve, Pop, optional_last_value, GrammarError, Whitespace, Always, Never, \
     Synonym, matching_bracket, ParseFunc, update_scanner, CombinedParser, parser_names, \
@@ -1463,6 +1463,7 @@ class EBNFDirectives:
         return self.__slots__
 
     def add_to_disposable_regexp(self, pattern: str):
+        pattern = scoped_flags(pattern)
         if self.disposable == NEVER_MATCH_PATTERN:
             self.disposable = pattern
         else:
@@ -1473,7 +1474,7 @@ class EBNFDirectives:
         for s in frozenset(symbols):
             if re.match(self.disposable, s):  symbols.remove(s)
         if symbols:
-            pattern = '$|'.join(symbols) + '$'
+            pattern = '$|'.join(re.escape(s) for s in symbols) + '$'
             if self.disposable != NEVER_MATCH_PATTERN:
                 self.disposable = f'(?:{self.disposable})|(?:{pattern})'
             else:
diff --git a/DHParser/parse.py b/DHParser/parse.py
index b3c25b6..900e82d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1218,6 +1218,22 @@ def has_non_autocaptured_symbols(parser: Parser) -> bool:
 RX_NEVER_MATCH = LazyRE(NEVER_MATCH_PATTERN)
 
 
+def scoped_flags(rx: str) -> str:
+    r"""Turns global inline-flags at the beginning of a regular expression
+    into local flags so that the pattern can be embedded in another one, e.g.
+
+        >>> scoped_flags(r"(?i)rem.*")
+        '(?i:rem.*)'
+        >>> scoped_flags(r"#.*")
+        '#.*'
+    """
+    m = re.match(r'\(\?([aiLmsux]+)\)', rx)
+    if m is None:  return rx
+    flags = m.group(1)
+    # in verbose-mode, a comment at the end might swallow the closing bracket
+    return f"(?{flags}:{rx[m.end():]}" + ("\n)" if "x" in flags else ")")
+
+
 def mixin_comment(whitespace: str, comment: str, always_match: bool = True) -> str:
     r"""
     Returns a regular expression pattern that merges comment and whitespace
@@ -1244,13 +1260,14 @@ def mixin_comment(whitespace: str, comment: str, always_match: bool = True) -> s
         >>> rx.match('   # comment').group(0)
         '   # '
     """
+    whitespace = scoped_flags(whitespace)
     if re.match(whitespace, ""):
         whitespace = f'(?:{whitespace})'
     else:
         whitespace = '(?:' + whitespace + (')?' if always_match else ')')
 
     if comment and comment != NEVER_MATCH_PATTERN:
-        comment = '(?:' + comment + ')'
+        comment = '(?:' + scoped_flags(comment) + ')'
         return '(?:' + whitespace + '(?:' + comment + whitespace + ')*)'
     return whitespace
 
-- 
2.43.0


From 488f175889aa75ee9800ad4a4a1d94152364d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:16 +0000
Subject: [PATCH 144/155] fix: undefined symbols with the name of a
 parser-class corrupted that class

When running the static analysis on a grammar with an undefined symbol like "Text",
the Python-name was resolved to the parser-class, the fields of which were overwritten
so that all grammars that were run afterwards in the same process failed.
---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 0dba0dc..7331ffe 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2422,7 +2422,7 @@ class EBNFCompiler(Compiler):
         if get_config_value('static_analysis') == 'early' and not \
                 any((e.code >= FATAL or e.code in
                      (MALFORMED_REGULAR_EXPRESSION, SYMBOL_NAME_IS_PYTHON_KEYWORD,
-                      BAD_ORDER_OF_ALTERNATIVES))
+                      UNDEFINED_SYMBOL, BAD_ORDER_OF_ALTERNATIVES))
                     for e in self.tree.errors):
             errors = []
             # circumvent name-errors for external symbols
-- 
2.43.0


From efcdd496e18bc6cf9dd62bdb025a79f538e7bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 145/155] fix: the first parsing-process after a static
 analysis could fail

The static analysis of capturing-parsers runs these parsers on an empty document. The memoized
results were reused when parsing the first document with the same grammar-object.
---
 DHParser/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 900e82d..28ae29a 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1875,6 +1875,7 @@ class Grammar:
                  or (static_analysis is None
                      and get_config_value('static_analysis') in {'early', 'late'}))):
             analysis_errors = self.static_analysis__()
+            self._dirty_flag__ = True  # the analysis may have left traces, e.g. memoized results
             # clears any stored errors without overwriting the pointer. (Both lists
             # are shared by all instances of the class, possibly in different threads!)
             with GRAMMAR_CLASS_LOCK:
-- 
2.43.0


From b5ff707786cb934f0cac4a6effaedcd7f56da681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 146/155] fix: static analysis of capturing parsers with
 mandatory items raised a ParserError

---
 DHParser/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 28ae29a..a073bfe 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4965,7 +4965,10 @@ class Capture(ContextSensitive):
                 0, CAPTURE_DROPPED_CONTENT_WARNING
             )))
         if self.zero_length_warning:
-            node, _ = self.parser._parse(0)
+            try:
+                node, _ = self.parser._parse(0)
+            except ParserError:  # mandatory item missing, i.e. empty string does not match
+                node = None
             if node is not None:
                 errors.append(AnalysisError(self.pname, self, Error(
                     'Variable "%s" captures zero length strings, which can lead to '
-- 
2.43.0


From fd35f1d663250f23d76ad6c6d33488d3435dfd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:45 +0000
Subject: [PATCH 147/155] fix: directives with the same name as a
 preprocessor-token let the EBNF-compiler crash

---
 DHParser/ebnf.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 7331ffe..4774ac7 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2573,7 +2573,6 @@ class EBNFCompiler(Compiler):
                 self.join_literals(child)
 
         key = node.children[0].content
-        assert key not in self.directives.tokens
 
         if key not in EBNFDirectives.REPEATABLE_DIRECTIVES and not key.endswith('_error') \
                 and key in self.defined_directives:
-- 
2.43.0


From 34cee7c45a1190d8d72f651567a1df0ce428010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 148/155] fix: a symbol named "re" broke grammars with
 search-rules

---
 DHParser/ebnf.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 4774ac7..3ece555 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1731,7 +1731,7 @@ class EBNFCompiler(Compiler):
         self.defined_directives = dict()       # type: Dict[str, List[Node]]
         self.consumed_custom_errors = set()    # type: MutableSet[str]
         self.consumed_skip_rules = set()       # type: MutableSet[str]
-        self.P = {p: p for p in parser_names}  # type: Dict[str, str]
+        self.P = {p: p for p in (*parser_names, 're')}  # type: Dict[str, str]
 
 
     @property
@@ -1920,10 +1920,11 @@ class EBNFCompiler(Compiler):
             nonempty_ws = mixin_nonempty(super_ws)
             search_regex = self.extract_regex(nd)\
                 .replace(r'\~!', nonempty_ws).replace(r'\~', super_ws)
-            return unrepr("re.compile(%s)" % as_raw_literal(search_regex))
+            return unrepr(f"{self.P['re']}.compile({as_raw_literal(search_regex)})")
         elif nd.name == 'literal':
             s = self.literal_text(nd.content)
-            return unrepr("re.compile(%s)" % as_raw_literal(f"(?={re.escape(s)})"))
+            search_regex = f"(?={re.escape(s)})"
+            return unrepr(f"{self.P['re']}.compile({as_raw_literal(search_regex)})")
         elif nd.name == 'procedure':
             proc_name = nd.content
             self.py_symbols.add(proc_name)
@@ -2151,7 +2152,7 @@ class EBNFCompiler(Compiler):
                                 "Whitespace(%s)" % EBNFCompiler.RAW_WS_KEYWORD))
         definitions.append((EBNFCompiler.RAW_WS_KEYWORD,
                             as_raw_literal(self.directives.whitespace)))
-        comment_rx = ("re.compile(%s)" % EBNFCompiler.COMMENT_KEYWORD) \
+        comment_rx = f"{self.P['re']}.compile({EBNFCompiler.COMMENT_KEYWORD})" \
             if self.directives.comment else "RX_NEVER_MATCH"
         if EBNFCompiler.COMMENT_PARSER_KEYWORD in self.required_keywords:
             definitions.append((EBNFCompiler.COMMENT_PARSER_KEYWORD,
@@ -2228,7 +2229,7 @@ class EBNFCompiler(Compiler):
         definitions.append(('parser_initialization__', '["upon instantiation"]'))
         definitions.append(('static_analysis_pending__', '[True]'))
         definitions.append(('disposable__',
-                            're.compile(' + repr(self.directives.disposable) + ')'))
+                            f"{self.P['re']}.compile({repr(self.directives.disposable)})"))
         if self.directives.reduction != CombinedParser.DEFAULT_OPTIMIZATION:
             opt = 'CombinedParser.' + ('NO_TREE_REDUCTION', 'FLATTEN', 'MERGE_TREETOPS',
                                        'MERGE_LEAVES')[self.directives.reduction]
-- 
2.43.0


From 4678ce6a353d58217e7ad06baafc145068e69c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:30 +0000
Subject: [PATCH 149/155] fix: names of preprocessor-tokens that are not
 capitalized were not reported

Instead, an AssertionError was raised when the generated parser was imported.
---
 DHParser/ebnf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 3ece555..9d88fa7 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2711,7 +2711,11 @@ class EBNFCompiler(Compiler):
                 self.tree.new_error(node, 'Tokens %s have already been declared earlier. '
                                     % str(redeclared) + 'Later declaration will be ignored',
                                     code=REDECLARED_TOKEN_WARNING)
-            self.directives.tokens |= tokens - redeclared
+            malformed = {tk for tk in tokens if not re.fullmatch(r'\w+', tk) or not tk.isupper()}
+            if malformed:
+                self.tree.new_error(node, 'Names of preprocessor-tokens must consist of capital '
+                                    'letters, other than: ' + ', '.join(sorted(malformed)))
+            self.directives.tokens |= tokens - redeclared - malformed
 
         elif key == "optimizations":
             values = frozenset(child.content.strip().lower() for child in node.children[1:])
-- 
2.43.0


From 46a71599fc90e4986f4391728e4fa05aa8c71da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 150/155] fix: nested groups in regular expressions were
 garbled when merged into a SmartRE

neutralize_unnamed_groups() expected the brackets in the order of their opening-brackets.
---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 9d88fa7..ae2118b 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1507,7 +1507,7 @@ def neutralize_unnamed_groups(rxp: str) -> str:
     r"""Replaces unnamed groups by non-catching groups, i.e. (\w+) -> (?:w+)"""
     a = 0
     al = []
-    for b, _ in matching_brackets(rxp, "(", ")", is_regex=True):
+    for b, _ in sorted(matching_brackets(rxp, "(", ")", is_regex=True)):
         if rxp[b + 1] != "?":
             al.append(rxp[a:b + 1])
             a = b + 1
-- 
2.43.0


From eaa187027f59c6b37c2e22e6e3278ab58e3d4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 151/155] fix: left-over values of captures with mandatory
 items raised a ParserError

---
 DHParser/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index a073bfe..159602f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4929,7 +4929,10 @@ class Capture(ContextSensitive):
             # must neither depend on the document that has just been parsed nor
             # interfere with the variables captured so far. So, use a fresh copy.
             grammar = Grammar(self.parser, static_analysis=False)
-            self._can_capture_zero_length = grammar.root_parser__(0)[0] is not None
+            try:
+                self._can_capture_zero_length = grammar.root_parser__(0)[0] is not None
+            except ParserError:  # mandatory item missing, i.e. empty string does not match
+                self._can_capture_zero_length = False
         return cast(bool, self._can_capture_zero_length)
 
     def _rollback(self):
-- 
2.43.0


From 6849d8369d6a84d8dbddd987bcbd12306d142d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 152/155] fix: AssertionError instead of an error-message if no
 parser has failed before an error

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 159602f..bf677c1 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2135,7 +2135,7 @@ class Grammar:
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
                 if result is None or (result.name == ZOMBIE_TAG and result.strlen() == 0):
-                    err_pos = self.ff_pos__
+                    err_pos = self.ff_pos__ if self.ff_pos__ >= 0 else stop_pos
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
                     if associated_symbol != self.ff_parser__:
                         err_pname = associated_symbol.pname + '->' + str(self.ff_parser__)
-- 
2.43.0


From f922f9f6e3475321664d1a48ad18c45110aad364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 153/155] fix: IndexError if a value is popped repeatedly from
 an empty stack at the same place

(If the same error is reported once more at the same place, the node is not registered as error-node.)
---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index bf677c1..d3e3f11 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5158,7 +5158,7 @@ class Pop(Retrieve):
     @cython.locals(location_=cython.int)
     def _parse(self, location: cython.int) -> ParsingResult:
         node, location_ = self.retrieve_and_match(location)
-        if node is not None and not id(node) in self._grammar.tree__.error_nodes:
+        if node is not None and self._grammar.variables__[self.symbol_pname]:
             self.values.append(self._grammar.variables__[self.symbol_pname].pop())
             self._grammar.push_rollback__(self._rollback_location(location, location_), self._rollback)
         else:
-- 
2.43.0


From 2decd247e09fe03da8c42527534f223800e1ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:42 +0000
Subject: [PATCH 154/155] fix: symbols defined as nothing but a dropped macro
 yielded an AssertionError

---
 DHParser/ebnf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ae2118b..abc9619 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2544,6 +2544,10 @@ class EBNFCompiler(Compiler):
                     defn = f'{self.P["Synonym"]}({defn})'
                 if drop_flag and not defn.startswith(self.P["Drop"] + "("):
                     defn = f'{self.P["Drop"]}({defn})'
+                elif defn.startswith((self.P["Drop"] + "(", self.P["DropFrom"] + "(")) \
+                        and not re.match(self.directives.disposable, rule):
+                    # parsers that are not disposable must not be dropped, e.g. a = $macro(b)
+                    defn = f'{self.P["Synonym"]}({defn})'
             else:
                 assert isinstance(defn, Node)
                 self.tree.new_error(node, 'Structural Error in AST, unexpected node-type: '
-- 
2.43.0


From f8d1c0fabfb322d2b82ff4bec027e5e59fef1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:44 +0000
Subject: [PATCH 155/155] fix: AssertionError if a symbol is captured as well
 as used in a lookbehind

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d3e3f11..14ac2af 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4794,7 +4794,7 @@ class Lookbehind(FlowParser):
     """
     def __init__(self, parser: Parser) -> None:
         p = parser
-        while isinstance(p, Synonym):
+        while isinstance(p, (Synonym, Capture)):
             p = p.parser
         self.regexp = None
         self.text = ''  # type: str
-- 
2.43.0

