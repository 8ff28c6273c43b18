From 709d2d4a0b9f74e1b639fc80fd05dd14cadf2567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:05 +0000
Subject: [PATCH 001/137] fix: Counted returns the start location when it fails

A failing Counted parser returned the location after the last
successful repetition together with None. Optional and repeating
parsers continue from the returned location and thereby silently
dropped the text in between from the tree.
---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..f5f1873 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3900,14 +3900,15 @@ class Counted(UnaryParser):
         copy_combined_parser_attrs(self, duplicate)
         return duplicate
 
-    @cython.locals(location_=cython.int)
+    @cython.locals(start_location=cython.int, location_=cython.int)
     def _parse(self, location: cython.int):
         results: Tuple[Node, ...] = ()
+        start_location = location
         location_ = location
         for _ in range(self.repetitions[0]):
             node, location = self.parser(location)
             if node is None:
-                return None, location_
+                return None, start_location
             if node._result or node.name[0] != ':':
                 results += (node,)
             if location_ >= location:
-- 
2.43.0


From 2d395dad6be71d016f492b086f54e06401ba508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 002/137] fix: clearing the variables after an error or
 cancellation raised RuntimeError

Deleting keys while iterating over the dictionary raises 'dictionary
changed size during iteration', so that the parse of a grammar with
captured symbols ended with an exception instead of error messages.
---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f5f1873..6fc679b 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2042,13 +2042,13 @@ class Grammar:
                 result, location = parser(location)
             except ParserError as pe:
                 result, location = pe.node, L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From 37205e8504773b87bb4b7f6ea81f23d774b7df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 003/137] fix: undo captures of failed attempts at the final
 location of a match

Variable changes are rolled back lazily, when the next parser is called.
At the end of a parse no next parser is called, so that e.g. a failed
last iteration of a repetition left its captures on the stack and a
spurious 'Capture-stack not empty'-error was reported.
---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 6fc679b..6f65b16 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2040,6 +2040,8 @@ class Grammar:
         while location < L and len(stitches) < max_parser_dropouts:
             try:
                 result, location = parser(location)
+                # undo variable changes of failed attempts to continue at the final location
+                self.rollback_to__(location)
             except ParserError as pe:
                 result, location = pe.node, L
                 self.variables__.clear()
-- 
2.43.0


From 93bb9dd6fdbc75ce6320967e17982f5d427750b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 004/137] fix: StringView and TextBuffer operations agree with
 those on ordinary strings

---
 DHParser/stringview.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index bf7ac04..1425bba 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -121,6 +121,7 @@ class StringView:  # collections.abc.Sized
         _len = _end - _begin  # type: int
         if _len < 0:
             _len = 0
+            _end = _begin
         self._begin = _begin   # type: int
         self._end = _end       # type: int
         self._len = _len       # type: int
@@ -168,6 +169,9 @@ class StringView:  # collections.abc.Sized
             return _fullstring == str(other)
         return False
 
+    def __contains__(self, sub) -> bool:
+        return self.find(str(sub)) >= 0
+
     def __hash__(self) -> int:
         """PERFORMANCE WARNING: This creates a copy of the string-slice!"""
         return hash(str(self))
@@ -194,8 +198,8 @@ class StringView:  # collections.abc.Sized
             _begin = self._begin
             return StringView(self._text, _begin + start, _begin + stop)
         except AttributeError:
-            _index = index
-            if _index >= self._len:
+            _index = index if index >= 0 else index + self._len
+            if _index < 0 or _index >= self._len:
                 raise IndexError("StringView index %i out of range 0 - %i" % (_index, self._len))
             _begin = self._begin
             return StringView(self._text, self._begin + _index, self._begin + _index + 1)
@@ -270,9 +274,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.startswith(prefix, start, end)
+        start, end = fast_real_indices(start, end, self._len)
+        return self._text.startswith(prefix, self._begin + start, self._begin + end)
 
     def endswith(self,
                  suffix: str,
@@ -282,9 +285,8 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.endswith(suffix, start, end)
+        start, end = fast_real_indices(start, end, self._len)
+        return self._text.endswith(suffix, self._begin + start, self._begin + end)
 
     def match(self, regex, flags: cython.int = 0):
         """Executes `regex.match` on the StringView object and returns the
@@ -345,13 +347,13 @@ class StringView:  # collections.abc.Sized
         return self if begin == 0 and end == self._len else self[begin:end]
 
     @cython.locals(begin=cython.int)
-    def lstrip(self, chars=' \n\t') -> StringView:
+    def lstrip(self, chars=' \n\r\t') -> StringView:
         """Returns a copy of `self` with leading whitespace removed."""
         begin = first_char(self._text, self._begin, self._end, chars) - self._begin
         return self if begin == 0 else self[begin:]
 
     @cython.locals(end=cython.int)
-    def rstrip(self, chars=' \n\t') -> StringView:
+    def rstrip(self, chars=' \n\r\t') -> StringView:
         """Returns a copy of `self` with trailing whitespace removed."""
         end = last_char(self._text, self._begin, self._end, chars) - self._begin
         return self if end == self._len else self[:end]
@@ -363,8 +365,8 @@ class StringView:  # collections.abc.Sized
         whitespace string is a separator and empty strings are
         removed from the result.
         """
-        if self._fullstring:
-            return self._fullstring.split(sep)
+        if self._fullstring or sep is None:
+            return str(self).split(sep)
         else:
             pieces = []   # type: List[Union['StringView', str]]
             length = len(sep)
@@ -401,6 +403,7 @@ class TextBuffer:
     def __init__(self, text: Union[str, StringView], version: cython.int = 0):
         self._text = text       # type: Union[str, StringView]
         self._buffer = []       # type: List[Union[str, StringView]]
+        self._eol = ''          # end of line marker used in self._text, '' if unknown
         self.version = version if version >= 0 else 0
 
     def _lazy_init(self):
@@ -421,7 +424,7 @@ class TextBuffer:
         if self._text:
             return len(self._text)
         else:
-            return sum(len(line) for line in self._buffer) + len(self._buffer) - 1
+            return sum(len(line) for line in self.buffer) + len(self.buffer) - 1
 
     @property
     def buffer(self) -> List[Union[str, StringView]]:
@@ -483,7 +486,7 @@ class TextBuffer:
     def snapshot(self, eol: str = '\n') -> Union[str, StringView]:
         """Returns the current state of the entire text, using the given
         end of line marker (``\\n`` or ``\\r\\n``)"""
-        if self._text:
-            return self._text
-        self._text = eol.join(str(line) for line in self._buffer)
+        if not self._text or self._eol != eol:
+            self._text = eol.join(str(line) for line in self.buffer)
+            self._eol = eol
         return self._text
-- 
2.43.0


From dcc0ffb2f198981f6b488551f698e7a83dd40020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 005/137] fix: matching_brackets reports all unmatched brackets
 and understands escapes and character sets

---
 DHParser/toolkit.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..4083172 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -889,9 +889,8 @@ def as_identifier(s: str, replacement: str = "_") -> str:
 NOPE = []  # a list that is empty and is supposed to remain empty
 INFINITE = 2**30  # a practically infinite value
 
-_RX_CHARSET = LazyRE(r'(?<=\[)(?:(?<!\\)(?:\\\\)*\\\]|[^\]])*(?=\])')
-_RX_ESCAPED_ROUND_BRACKET = LazyRE(r'(?<!\\)(?:\\\\)*\\[()]')
-_RX_ESCAPED_SQUARE_BRACKET = LazyRE(r'(?<!\\)(?:\\\\)*\\[\[\]]')
+_RX_ESCAPED = LazyRE(r'\\(?:.|\n)')
+_RX_CHARSET = LazyRE(r'\[\^?\]?[^\]]*\]')  # presupposes that escapes have been removed
 
 
 def _sub_size(rx: Union[RxPatternType, LazyRE], text: str, fill_char: str = ' ') -> str:
@@ -945,9 +944,8 @@ def matching_brackets(text: str,
     assert not unmatched, \
         "Please pass an empty list as unmatched flag, not: " + str(unmatched)
     if is_regex:
-        text = _sub_size(_RX_CHARSET, text)
-        text = _sub_size(_RX_ESCAPED_ROUND_BRACKET, text)
-        text = _sub_size(_RX_ESCAPED_SQUARE_BRACKET, text)
+        text = _sub_size(_RX_ESCAPED, text)
+        text = subf(_RX_CHARSET, lambda ms: '[' + ' ' * (len(ms) - 2) + ']', text)
     stack, matches = [], []
     da = len(openB)
     db = len(closeB)
@@ -970,10 +968,10 @@ def matching_brackets(text: str,
             if unmatched is not NOPE:  unmatched.append(b)
         b = text.find(closeB, b + db)
     if unmatched is not NOPE:
-        if stack:
-            unmatched.extend(stack)
-        elif a >= 0:
+        unmatched.extend(stack)
+        while a >= 0:
             unmatched.append(a)
+            a = text.find(openB, a + da)
     return matches
 
 
-- 
2.43.0


From 9ed7076e70d8f2a1bed7ef21ab046b273bd955db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 006/137] fix: JSON keys are escaped like other strings

---
 DHParser/toolkit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 4083172..5d74f4e 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1596,7 +1596,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
             if obj:
                 r = ['{']
                 for k, v in obj.items():
-                    r.append('"' + k + '":')
+                    r.append(json_encode_string(k) + ':')
                     r.extend(serialize(v))
                     r.append(',')
                 r[-1] = '}'
@@ -1695,13 +1695,13 @@ def pp_json(obj: JSON_Type, *, cls=json.JSONEncoder) -> str:
                 if len(obj) == 1:
                     k, v = next(iter(obj.items()))
                     if not isinstance(v, (dict, list, tuple)):
-                        r = ['{"' + k + '": ']
+                        r = ['{' + json_encode_string(k) + ': ']
                         r.extend(serialize(v, indent + '  '))
                         r.append('}')
                         return r
                 r = ['{\n' + indent + '  ']
                 for k, v in obj.items():
-                    r.append('"' + k + '": ')
+                    r.append(json_encode_string(k) + ': ')
                     r.extend(serialize(v, indent + '  '))
                     r.append(',\n' + indent + '  ')
                 r[-1] = '}'
-- 
2.43.0


From cf20c2ffc13e2abc398d9f8f4356b2bcf9d36fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 007/137] fix: wrapping string literals splits no escape
 sequence, wrap_str_nicely drops no character

---
 DHParser/toolkit.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 5d74f4e..c80ae99 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -707,6 +707,10 @@ def abbreviate_middle(s: str, max_length: int) -> str:
     return s
 
 
+_RX_LITERAL_ATOM = LazyRE(r'\\(?:x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|N\{[^}]*\}'
+                          r'|[0-7]{1,3}|.|\n)|\{\w+\}|.|\n')
+
+
 def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0) -> str:
     r"""Wraps an excessively long string literal over several lines.
     Example::
@@ -747,16 +751,11 @@ def wrap_str_literal(s: Union[str, List[str]], column: int = 80, offset: int = 0
     assert len(s) >= 2 and q == s[-1] and q in ('"', "'", "`", "´"), \
         "string literal must be enclosed by quotation marks"
     if parts is None:
-        parts = [s[i: i + column] for i in range(0, len(s), column)]
-        for i in range(len(parts) - 1):
-            p = parts[i]
-            k = 1
-            while k <= len(p) and p[-k] == '\\':
-                k += 1
-            k -= 1
-            if k > 0:
-                parts[i] = p[:-k]
-                parts[i + 1] = p[-k:] + parts[i + 1]
+        parts = ['']
+        for m in _RX_LITERAL_ATOM.finditer(s):  # never split within an escape sequence
+            if parts[-1] and len(parts[-1]) + len(m.group(0)) > column:
+                parts.append('')
+            parts[-1] += m.group(0)
     if r:  parts[0] = r + parts[0]
     wrapped = (''.join([q, '\n', ' ' * offset, r, q])).join(parts)
     return wrapped
@@ -831,7 +830,7 @@ def wrap_str_nicely(s: str, wrap_column: int = 79, tolerance: int = 24,
             parts.append(s[a:i])
             a = i
             i += wrap_column
-    if a < len(s) - 1:  parts.append(s[a:])
+    if a < len(s):  parts.append(s[a:])
     return '\n'.join(parts)
 
 
-- 
2.43.0


From 107912445ad761caef8d0e260b45ac23cc54769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 008/137] fix: expand_table raised TypeError instead of
 KeyError for tuple keys

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index c80ae99..2218017 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1473,7 +1473,7 @@ def expand_table(compact_table: Dict) -> Dict:
         value = compact_table[key]
         for k in smart_list(key):
             if k in expanded_table:
-                raise KeyError('Key "%s" used more than once in compact table!' % key)
+                raise KeyError('Key "%s" used more than once in compact table!' % str(k))
             expanded_table[k] = value
     return expanded_table
 
-- 
2.43.0


From 4d04b59b5b9d9048b9be991933b00186224cc452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 009/137] fix: Node.locate and locate_path find nothing at
 negative locations

---
 DHParser/nodetree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..2660629 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1379,6 +1379,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         See also :py:class:`ContentMapping` for a more
         general approach to locating string positions within the tree.
         """
+        if location < 0:
+            return None
         end = 0
         for nd in self.select_if(lambda nd: not nd._children, include_root=True):
             end += nd.strlen()
@@ -1490,6 +1492,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         Like :py:meth:`Node.locate()`, only that the entire path (i.e.
         chain of descendants) relative to `self` is returned.
         """
+        if location < 0:
+            return []
         end = 0
         for path in self.select_path_if(lambda path: not path[-1]._children, include_root=True):
             end += path[-1].strlen()
-- 
2.43.0


From 55c598876fe4d84d84798e71c70acdd098ba6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 010/137] fix: path_str rejected exactly the names without
 slash

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2660629..d7d94fc 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3877,7 +3877,7 @@ def path_str(path: Path) -> str:
     """Returns the path as a pseudo filepath of tag-names."""
     tag_list = ['']
     for node in path:
-        assert not node.name.find('/'), 'path_str() not allowed for tag-names containing "/"!'
+        assert node.name.find('/') < 0, 'path_str() not allowed for tag-names containing "/"!'
         tag_list.append(node.name)
     if path[-1].children:
         tag_list.append('')
-- 
2.43.0


From 8d6af07dfa88d85cd939ee92a24f77b979995b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 011/137] fix: foregoing_str with length zero returns the empty
 string

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index d7d94fc..dff2739 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4078,7 +4078,7 @@ def foregoing_str(path: Path, length: int = -1) -> str:
         N += len(s)
         trl = prev_path(trl)
     foregoing = ''.join(reversed(l))
-    return foregoing if length < 0 else foregoing[-length:]
+    return foregoing if length < 0 else foregoing[max(0, len(foregoing) - length):]
 
 
 def ensuing_str(path: Path, length: int = -1) -> str:
-- 
2.43.0


From 5850981d32ee17b9ba049ff570a6a62f1eecd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 012/137] fix: select_path_if yields independent paths and
 honours skip_func for siblings

---
 DHParser/nodetree.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index dff2739..7893010 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4118,23 +4118,22 @@ def select_path_if(start_path: Path,
                 yield from recursive(child_path)
 
     path = start_path.copy()
+    if include_root:
+        yield from recursive(path.copy())
     while path:
-        if include_root:
-            yield from recursive(path)
-        else:
-            include_root = True
         node = path.pop()
         edge, delta = (0, -1) if reverse else (-1, 1)
         while path and node is path[-1]._children[edge]:
             if match_func(path):
-                yield path
+                yield path.copy()
             node = path.pop()
         if path:
             parent = path[-1]
             i = parent.index(node)
             nearest_sibling = parent._children[i + delta]
             path.append(nearest_sibling)
-            # include_root = True
+            if not skip_func(path):
+                yield from recursive(path.copy())
 
 
 def select_path(start_path: Path,
-- 
2.43.0


From d4664625a72173e3df65f339969956dc644427e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 013/137] fix: from_etree keeps the attributes of elements with
 sub-elements

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 7893010..74d234d 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2706,7 +2706,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 children.append(Node.from_etree(el, string_tag))
                 if el.tail:
                     children.append(Node(string_tag, el.tail))
-            node = Node(restore_tag_name(et.tag), tuple(children))
+            node = Node(restore_tag_name(et.tag), tuple(children)).with_attr(et.attrib)
         else:
             node = Node(restore_tag_name(et.tag), et.text or '').with_attr(et.attrib)
         return node
-- 
2.43.0


From e93b955950c41c669edf9bec48eef9061b3b670a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 014/137] fix: no indentation is added to the lines of inlined
 or space-preserving XML elements

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 74d234d..4c9657c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1873,7 +1873,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                         i += 1
                     while k >= 0 and not lines[k]:
                         k -= 1
-                tb = usetab + (tab if reflow or not inline else '')
+                if inline and reflow_fn is NO_REFLOW:  tb = ''
+                else:  tb = usetab + (tab if reflow or not inline else '')
                 content = [usetab + head, tb] if hlf else [usetab + head]  # + tb?
                 for line in lines[i:k]:
                     content[-1] += line
-- 
2.43.0


From 05e4ef8b39736da5f10af49577add108f7529596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 015/137] fix: serializing with reflow_col neither changes the
 tree nor fails on multiple blanks

---
 DHParser/nodetree.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 4c9657c..b7dd083 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1805,6 +1805,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             reflow = inline_fn(self)    # reflow is done on the first inlined element
             inline = reflow
             if reflow and reflow_fn is not NO_REFLOW:
+                # save content in order not to change the tree by merely serializing it
+                original = [(nd, nd.result) for nd in self.select_if(LEAF_NODE, include_root=True)]
                 reflow_as_oneliner(self, xml_space_policy=XMLSpacePolicy.RESPECT)
         else:
             reflow = False
@@ -1887,6 +1889,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
 
         if reflow and len(content) == 1:
             content = [reflow_fn(tab, content[0], depth)]
+            if reflow_fn is not NO_REFLOW:
+                for nd, result in original:  nd.result = result
         else:
             assert reflow_fn is NO_REFLOW or not reflow or len(content) == 1, \
                 f"Reflow but len(content) == {len(content)} > 1 !? Apply reflow_as_oneliner() " \
@@ -2057,16 +2061,12 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             if len(content) < reflow_col:
                 return content
             nonlocal inner_content
-            t = content.find(inner_content)
-            assert t > 0
-            a = t - 1
-            b = t+len(inner_content)
-            q = content[a]
-            assert q == content[b]
-            # stripped = content.strip()
-            # i = content.find(stripped)
-            # lead_in = ''.join(['\n', i * ' ', tab, q*2])
-            content = ''.join([content[:a], q*2, content[a:b], q*2, content[b:]])
+            inner = RX_WHITESPACE.sub(' ', inner_content)
+            q = content.rstrip()[-2]  # quotation mark
+            a = content.rfind(q + inner + q)
+            b = a + len(inner) + 1
+            if a >= 0 and content[a - 2:a] != q * 2:
+                content = ''.join([content[:a], q*2, content[a:b], q*2, content[b:]])
             return self._reflow(tab, content, reflow_col)
 
         def inline(nd: Node) -> bool:
-- 
2.43.0


From 5de6f3bcc48b4abaaf4263b34dfbad040fa119d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 016/137] fix: parse_xml keeps single-quoted attributes and
 attributes after a value containing >

---
 DHParser/nodetree.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index b7dd083..d02700c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3474,7 +3474,8 @@ def parse_sxml(sxml: Union[str, StringView]) -> RootNode:
 
 
 RX_WHITESPACE_TAIL = LazyRE(r'\s*$')
-RX_XML_ATTRIBUTES = LazyRE(r'\s*(?P<attr>[\w:.-]+)\s*=\s*"(?P<value>.*?)"\s*')
+RX_XML_ATTRIBUTES = LazyRE(r'''\s*(?P<attr>[\w:.-]+)\s*=\s*(?:"(?P<value>[^"]*)"|'(?P<sq_value>[^']*)')\s*''')
+RX_XML_WITHIN_TAG = LazyRE(r'''(?:[^>"']|"[^"]*"|'[^']*')*(?=>)''')
 RX_XML_SPECIAL_TAG = LazyRE(r'<(?![?!])')
 RX_XML_OPENING_TAG = LazyRE(r'<\s*(?P<tagname>[\w:.-]+)\s*')
 RX_XML_CLOSING_TAG = LazyRE(r'</\s*(?P<tagname>[\w:.-]+)\s*>')
@@ -3534,13 +3535,14 @@ def parse_xml(xml: Union[str, StringView],
         beginning after the end of the attr.
         """
         attributes = dict()  # type: Dict[str, Any]
-        eot = s.find('>')
+        match = s.match(RX_XML_WITHIN_TAG)
+        eot = s.index(match.end()) if match else s.find('>')
         restart = 0
         for match in s.finditer(RX_XML_ATTRIBUTES):
             if s.index(match.start()) >= eot:
                 break
             d = match.groupdict()
-            attributes[d['attr']] = d['value']
+            attributes[d['attr']] = d['value'] if d['value'] is not None else d['sq_value']
             restart = s.index(match.end())
         return s[restart:], attributes
 
@@ -3662,7 +3664,7 @@ def parse_xml(xml: Union[str, StringView],
                 else:
                     print(f'{get_pos_str(substring)} - {get_pos_str(s)}'
                           f' Tag-name mismatch: <{tagname}>...</{closing_tagname}>!')
-        if len(res) == 1 and res[0].name == string_tag:
+        if len(res) == 1 and res[0].name == string_tag and not res[0].has_attr():
             result = res[0].result  # type: Union[Tuple[Node, ...], StringView, str]
         else:
             result = tuple(res)
-- 
2.43.0


From 3e617e00d630575995dea5a53824a56701b2e16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 017/137] fix: S-expressions with quotation marks, brackets,
 blanks or positions are read back unchanged

---
 DHParser/nodetree.py | 48 +++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index d02700c..14b2687 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -412,6 +412,7 @@ def create_path_match_function(criterion: PathSelector) -> PathMatchFunction:
 
 
 RX_IS_SXPR = LazyRE(r'\s*\(')
+RX_SXPR_STRING = LazyRE(r'''("""(?s:.*?)"""|\'\'\'(?s:.*?)\'\'\'|"[^"]*"|'[^']*')''')
 RX_IS_XML = LazyRE(r'\s*<')
 RX_ATTR_NAME = LazyRE(r'[\w.:-]')
 
@@ -442,14 +443,10 @@ def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
     assert RX_IS_SXPR.match(sxpr)
     if threshold == 0:
         return sxpr
-    flat = re.sub(r'\s(?=\))', '', re.sub(r'\n\s*', ' ', sxpr)).strip()
-    l = flat.split('"')
-    if len(l) > 1:
-        for i in range(0, len(l), 2):
-            l[i] = re.sub(r'  +', ' ', l[i])
-        flat = '"'.join(l)
-    else:
-        flat =  re.sub(r'  +', ' ', flat)
+    parts = RX_SXPR_STRING.split(sxpr)
+    for i in range(0, len(parts), 2):  # leave the strings (odd indices) untouched
+        parts[i] = re.sub(r'\s(?=\))', '', re.sub(r'\s*\n\s*|  +', ' ', parts[i]))
+    flat = ''.join(parts).strip()
     if len(flat) > threshold > 0:
         return sxpr.strip()
     return flat
@@ -2012,9 +2009,15 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
             else None  # type: Optional[RootNode]
         inner_content: str = ""
 
+        def quoted(strg: str) -> str:
+            for q in ('"', "'", "'''", '"""'):
+                if strg.find(q) < 0 and strg[-1:] != q[0]:  return q + strg + q
+            return '"%s"' % strg.replace('"', r'\"')
+
         def attr(name: str, value: str):
-            if sxml:  return f' ({name} "{value}")'
-            else:  return f' `({name} "{value}")'
+            value = quoted(value) if name != 'err' else f'"{value}"'
+            if sxml:  return f' ({name} {value})'
+            else:  return f' `({name} {value})'
 
         def opening(node: Node) -> str:
             """Returns the opening string for the representation of `node`."""
@@ -2053,9 +2056,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         def pretty(strg: str) -> str:
             """Encloses `strg` with the right kind of quotation marks."""
             strg = subf(RX_CTRL_CHARS, ascii_char_code, strg)
-            return '"%s"' % strg if strg.find('"') < 0 \
-                else "'%s'" % strg if strg.find("'") < 0 \
-                else '"%s"' % strg.replace('"', r'\"')
+            return quoted(strg)
 
         def reflow(tab: str, content: str, depth: int) -> str:
             if len(content) < reflow_col:
@@ -3311,6 +3312,8 @@ RX_SXPR_INNER_PARSER = LazyRE(r'[?]?[\w.:-]+')
 RX_SXPR_NOTEXT = LazyRE(r'(?:(?!\)).)*', re.DOTALL)
 RX_SXPR_TEXT = {qtmark: LazyRE(qtmark + r'.*?' + qtmark, re.DOTALL)
                 for qtmark in ['"""', "'''", '"', "'"]}
+RX_SXPR_POS = LazyRE(r'\s*pos\s+("?)(?:\d+:?\d*\s+)*(\d+)\1\s*\)')
+RX_SXPR_ATTR = LazyRE(r'\s*([\w.:-]+)\s*' + RX_SXPR_STRING.regexp + r'\s*\)')
 
 
 def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
@@ -3351,9 +3354,10 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 k = 1
                 while level > 0:
                     if s[k] in ("'", '"'):
-                        k = s.find(str(s[k]), k + 1)
-                    if k < 0:
-                        raise IndexError()
+                        m = s[k:].match(RX_SXPR_STRING)
+                        if m is None:
+                            raise IndexError()
+                        k = s.index(m.end()) - 1
                     if s[k] == '(':
                         level += 1
                     elif s[k] == ')':
@@ -3374,6 +3378,18 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
         pos: int = -1
         L: int = len(attr_start)
         while sxpr[:L] == attr_start:
+            m_pos = sxpr[L:].match(RX_SXPR_POS)
+            if m_pos and (L == 1 or not m_pos.group(1)):  # `(pos 7), `(pos 1 8 7) or (pos "1:8 7")
+                pos = int(m_pos.group(2))
+                sxpr = sxpr[sxpr.index(m_pos.end()):].strip()
+                continue
+            m_attr = sxpr[L:].match(RX_SXPR_ATTR)
+            if m_attr and m_attr.group(1) != 'err' and (L > 1 or m_attr.group(1) != 'pos'):
+                value = m_attr.group(2)
+                q = 3 if len(value) >= 6 and value[:3] in ('"""', "'''") else 1
+                attributes[m_attr.group(1)] = value[q:-q]
+                sxpr = sxpr[sxpr.index(m_attr.end()):].strip()
+                continue
             i = sxpr.find('"')
             k = sxpr.find(')')
             if k > i:
-- 
2.43.0


From 04b8742a6949b5da739231fff0e06f30cd4ca4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 018/137] fix: ContentMapping.get_node_index finds branch nodes
 of which not all leaves are selected

---
 DHParser/nodetree.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 14b2687..72cac8e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5392,18 +5392,10 @@ class ContentMapping:
         """
         if node is None:
             return -1
-        if reverse:
-            while node.children:
-                node = node.children[-1]
-            for i in range(len(self._path_list) - 1, -1, -1):
-                if self._path_list[i][-1] == node:
-                    return i
-        else:
-            while node.children:
-                node = node.children[0]
-            for i in range(len(self._path_list)):
-                if self._path_list[i][-1] == node:
-                    return i
+        indices = range(len(self._path_list) - 1, -1, -1) if reverse else range(len(self._path_list))
+        for i in indices:
+            if node in self._path_list[i]:
+                return i
         return -1
 
     def get_node_position(self, node: Node, reverse: bool=False) -> int:
-- 
2.43.0


From 5982e720b2b575467ad2d1bcff1364cbad87fb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 019/137] fix: content mappings are updated completely after
 markup and insertion of nodes

---
 DHParser/nodetree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 72cac8e..21ec0f9 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5614,6 +5614,9 @@ class ContentMapping:
         end_path = self._path_list[last_index]
         common_ancestor, i = find_common_ancestor(start_path, end_path)
         assert common_ancestor
+        if i == len(start_path) - 1 and i > 0:
+            i -= 1  # leaf-nodes may have been split or may have received new siblings
+            common_ancestor = start_path[i]
         while first_index > 0 and self._path_list[first_index - 1][i:i + 1] == [common_ancestor]:
             first_index -= 1
         last = len(self._path_list) - 1
@@ -5624,7 +5627,7 @@ class ContentMapping:
         content, offsets, paths = self._generate_mapping(common_ancestor, stump)
         assert offsets[0] == 0
         start_pos = self._pos_list[first_index]
-        end_pos = self._pos_list[last_index] + self._path_list[last_index][-1].strlen()
+        end_pos = self._pos_list[last_index + 1] if last_index < last else len(self.content)
         offsets = [offset + start_pos for offset in offsets]
         if stump:  paths = [stump + path for path in paths]
 
@@ -5681,9 +5684,7 @@ class ContentMapping:
             divisables = self.divisibility['*']
         parent = insert_node(path, rel_pos, node, divisables)
         if self.auto_cleanup:
-            i1 = self.get_path_index(pos, left_biased=True)
-            i2 = self.get_path_index(pos + node.strlen(), left_biased=False)
-            self.rebuild_mapping_slice(i1, i2)
+            self.rebuild_mapping_slice(index, index)
         return NodeLocation(parent, index)
 
 
-- 
2.43.0


From 73bbbea16a854dbc6252b0f579debfa2902e503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 020/137] fix: nodetree: keep attributes and chain of leaves
 split by milestones or markup

---
 DHParser/nodetree.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 21ec0f9..6c2eaf5 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4401,7 +4401,8 @@ def path_sanity_check(path: Path) -> bool:
 #######################################################################
 
 def insert_node(leaf_path: Path, rel_pos: int, node: Node,
-                divisible_leaves: Container = DIVISIBLES) -> Node:
+                divisible_leaves: Container = DIVISIBLES,
+                chain_attr_name: str = '') -> Node:
     """Inserts a node at a specific position into the last or
     eventually second but last node in the path. The path must be
     a "leaf"-path, i.e., a path that ends in a leaf. Returns the
@@ -4466,7 +4467,15 @@ def insert_node(leaf_path: Path, rel_pos: int, node: Node,
             return parent
         if leaf.name not in divisible_leaves:
             raise ValueError(f'Node "{leaf.name}" is not divisible!')
-        parent.result = parent.children[:i] + split_leaf(leaf, node) + parent.children[i + 1:]
+        segments = split_leaf(leaf, node)
+        if leaf.has_attr():
+            segments[0].with_attr(leaf.attr)
+            segments[-1].with_attr(leaf.attr)
+        if chain_attr_name and not leaf.anonymous:
+            chain_attr = {chain_attr_name: gen_chain_ID()}
+            segments[0].with_attr(chain_attr)
+            segments[-1].with_attr(chain_attr)
+        parent.result = parent.children[:i] + segments + parent.children[i + 1:]
         return parent
     else:
         if rel_pos == 0:
@@ -5682,7 +5691,7 @@ class ContentMapping:
             divisables = self.divisibility[node.name]
         except KeyError:
             divisables = self.divisibility['*']
-        parent = insert_node(path, rel_pos, node, divisables)
+        parent = insert_node(path, rel_pos, node, divisables, self.chain_attr_name)
         if self.auto_cleanup:
             self.rebuild_mapping_slice(index, index)
         return NodeLocation(parent, index)
@@ -5816,6 +5825,9 @@ class ContentMapping:
             markup_leaf(common_ancestor, pos_A, pos_B, name, attr_dict)
             if ((not self.greedy or common_ancestor.name[0:1] == ":") and i != 0
                      and (common_ancestor.name in divisible or common_ancestor.anonymous)):
+                if (self.chain_attr_name and len(common_ancestor.children) > 1
+                        and not common_ancestor.anonymous):
+                    common_ancestor.attr[self.chain_attr_name] = gen_chain_ID()
                 for child in common_ancestor.children:
                     if child.name == TOKEN_PTYPE:
                         child.name = common_ancestor.name
-- 
2.43.0


From f6eb85a9ee54b481ab4b8f819ab783ea995090f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 021/137] fix: traverse() ignored a key's filters for the first
 node

---
 DHParser/transform.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..29ee9fa 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -437,11 +437,11 @@ def traverse(tree: Node,
             more_filters, main = split_filter(table.get(key, table.get('*', [])))
             post = table.get('>', [])
             assert not any(isinstance(callable, Filter) for callable in post)
-            sequence = pre + main + post
-            all_filters = filters + more_filters
-            if BLOCK_CHILDREN in all_filters:
-                all_filters = [BLOCK_CHILDREN]
-            cache[key] = (all_filters, sequence)
+            sequence = pre + main + list(post)
+            filters = filters + more_filters
+            if BLOCK_CHILDREN in filters:
+                filters = [BLOCK_CHILDREN]
+            cache[key] = (filters, sequence)
 
         children = node._children
         for filter in filters:
-- 
2.43.0


From 7421eb4503d9727c585e2427821e33e93469e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 022/137] fix: update_attr_unless() with a single node

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 29ee9fa..1a7614e 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -950,7 +950,7 @@ def update_attr_unless(dest: Node,
         update_attr(dest, src, root)
     else:
         if isinstance(src, Node):
-            src = (Node,)
+            src = (src,)
         src = tuple(s for s in src if not exclude([s]))
         update_attr(dest, src, root)
 
-- 
2.43.0


From 97c56a9cba54a0235f573fab469f915897963d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 023/137] fix: collapse_children_if() did not pass on its merge
 rule

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 1a7614e..7c4f24f 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1261,7 +1261,7 @@ def collapse_children_if(path: Path,
     for child in node._children:
         if condition(path + [child]):
             if child._children:
-                collapse_children_if(path + [child], condition, target_name)
+                collapse_children_if(path + [child], condition, target_name, merge_rule)
                 for c in child._children:
                     if condition(path + [child, c]):
                         package.append(c)
-- 
2.43.0


From 909779b95ea6156372d889be784c973191a6a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 024/137] fix: move_fringes() lost nodes that could not be
 merged

---
 DHParser/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 7c4f24f..fa85d38 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1613,12 +1613,16 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
                 target = before[-1] if before else prevN[0]
                 if merge_results(target, prevN + before, path[0]):
                     before = (target,)
+                else:
+                    before = prevN + before
             before = before or prevN
 
             if len(after) + len(nextN) > 1:
                 target = after[0] if after else nextN[-1]
                 if merge_results(target, after + nextN, path[0]):
                     after = (target,)
+                else:
+                    after = after + nextN
             after = after or nextN
 
         parent._set_result(parent_children[:a + 1] + before + (node,) + after + parent_children[b:])
-- 
2.43.0


From c8f2eeee631fa405ea554689031d9c885ce662f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 025/137] fix: transfer_errors() spread errors over all error
 positions

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 6c2eaf5..067a388 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3187,8 +3187,9 @@ class RootNode(Node):
             self.error_nodes.setdefault(destId, []).extend(errorList)
             del self.error_nodes[srcId]
             for nodeSet in self.error_positions.values():
-                nodeSet.discard(srcId)
-                nodeSet.add(destId)
+                if srcId in nodeSet:
+                    nodeSet.remove(srcId)
+                    nodeSet.add(destId)
 
     @property
     def errors_sorted(self) -> List[Error]:
-- 
2.43.0


From ad10f5fb8751b0b28a294908ac66a597457a767c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 026/137] fix: RootNode.swallow() transfers errors to the root;
 accepts None

---
 DHParser/nodetree.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 067a388..d2e687d 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3032,7 +3032,7 @@ class RootNode(Node):
         It is possible to add errors to a RootNode object, before it
         has actually swallowed the root of the node-tree.
         """
-        if not source:
+        if not source and node is not None:
             source = node.content
         if source != self.source:
             self.source = source
@@ -3053,8 +3053,7 @@ class RootNode(Node):
         if node.has_attr():
             self._attributes = node._attributes
         # self._content = node._content
-        if id(node) in self.error_nodes:
-            self.error_nodes[id(self)] = self.error_nodes[id(node)]
+        self.transfer_errors(node, self)
         if self.source:
             add_source_locations(self.errors, self.source_mapping)
         return self
-- 
2.43.0


From 6c42f3e98b422e43204780b6799fb5a8319d6239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 027/137] fix: deep-copied trees have their own error objects

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index d2e687d..c554f4b 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2982,7 +2982,8 @@ class RootNode(Node):
             # duplicate._attributes = copy.deepcopy(self._attributes)  # this is blocked by cython
         duplicate.errors = copy.deepcopy(self.errors, memodict)
         duplicate._error_set = {error for error in duplicate.errors}
-        duplicate.error_nodes = {map_id.get(i, i): el[:] for i, el in self.error_nodes.items()}
+        duplicate.error_nodes = {map_id.get(i, i): copy.deepcopy(el, memodict)
+                                 for i, el in self.error_nodes.items()}
         duplicate.error_positions = {pos: {map_id.get(i, i) for i in s}
                                      for pos, s in self.error_positions.items()}
         duplicate.source = self.source
-- 
2.43.0


From 9b9290ef78010752c3237106abe6f526cf3e5d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 028/137] fix: pickling of trees keeps errors attached to their
 nodes

---
 DHParser/nodetree.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index c554f4b..69e713c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3018,6 +3018,25 @@ class RootNode(Node):
 
         return duplicate
 
+    def __reduce_ex__(self, protocol):
+        # error_nodes and error_positions refer to nodes by their id which
+        # changes when unpickling. Therefore, the ids are pickled as well.
+        reduced = super().__reduce_ex__(protocol)
+        node_ids = [id(nd) for nd in self.walk_tree(include_root=True)]
+        return reduced[:2] + ((reduced[2], node_ids),) + reduced[3:]
+
+    def __setstate__(self, state):
+        state, old_node_ids = state
+        for fields in (state if isinstance(state, tuple) else (state,)):
+            if fields:
+                for name, value in fields.items():
+                    setattr(self, name, value)
+        new_node_ids = [id(nd) for nd in self.walk_tree(include_root=True)]
+        map_id = dict(zip(old_node_ids, new_node_ids))
+        self.error_nodes = {map_id.get(i, i): el[:] for i, el in self.error_nodes.items()}
+        self.error_positions = {pos: {map_id.get(i, i) for i in s}
+                                for pos, s in self.error_positions.items()}
+
     def swallow(self, node: Optional[Node],
                 source: Union[str, StringView] = '',
                 source_mapping: Optional[SourceMapFunc] = None) \
-- 
2.43.0


From a42d47e9bfbebdbe37fee73f5a1c10f64c70b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 029/137] fix: recursive symbols not connected to the root
 crash the grammar

---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 6f65b16..445a2f4 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1845,7 +1845,9 @@ class Grammar:
         except KeyError:
             parser_template = getattr(self.__class__, key, None)
             if parser_template:
-                if key != parser_template.pname:
+                pname = parser_template.parser.pname if isinstance(parser_template, Forward) \
+                    else parser_template.pname
+                if key != pname:
                     raise AttributeError(
                         f'Illegal parser-name "{key}" for grammar {self.__class__.__name__}!')
                 # add parser to grammar-object on the fly...
-- 
2.43.0


From 4611f0995cb7148643ca5a5049faa67e783f8f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 030/137] fix: errors without line and column in empty or
 non-matching documents

---
 DHParser/nodetree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 69e713c..eae673e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3065,6 +3065,7 @@ class RootNode(Node):
             self.name = ZOMBIE_TAG
             self.with_pos(0)
             self.new_error(self, 'Parser did not match!', PARSER_STOPPED_BEFORE_END)
+            add_source_locations(self.errors, self.source_mapping)
             return self
         self._result = node._result
         self._children = node._children
@@ -3074,8 +3075,7 @@ class RootNode(Node):
             self._attributes = node._attributes
         # self._content = node._content
         self.transfer_errors(node, self)
-        if self.source:
-            add_source_locations(self.errors, self.source_mapping)
+        add_source_locations(self.errors, self.source_mapping)
         return self
 
     def continue_with_data(self, data: Any):
@@ -3126,7 +3126,7 @@ class RootNode(Node):
         node = cast(Node, node)
         if node.pos <= error.pos <= node.pos + max(node.strlen(), 1):  # node.pos == error.pos:
             self.error_positions.setdefault(error.pos, set()).add(id(node))
-        if self.source:
+        if self.source or self.name != '__not_yet_ready__':
             add_source_locations([error], self.source_mapping)
         self.errors.append(error)
         self._error_set.add(error)
-- 
2.43.0


From 000800eae75da366248040a912298576ccbd25d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 031/137] fix: series that fail on a mandatory item report the
 position of the failure or crash if dropped

---
 DHParser/parse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 445a2f4..5420e2e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4476,7 +4476,9 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, ret_node.with_pos(location_),
+            if ret_node is EMPTY_NODE:  ret_node = Node(EMPTY_PTYPE, '')  # content is dropped
+            if ret_node._pos < 0:  ret_node.with_pos(location)
+            raise ParserError(self, ret_node,
                               location_ - location,
                               location, error, first_throw=True)
         return ret_node, location_
@@ -4596,7 +4598,9 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, nd.with_pos(location),
+            if nd is EMPTY_NODE:  nd = Node(EMPTY_PTYPE, '')  # content is dropped
+            if nd._pos < 0:  nd.with_pos(location)
+            raise ParserError(self, nd,
                               location_ - location,
                               location, error, first_throw=True)
         return nd, location_
-- 
2.43.0


From 2f89c2c4fbb92ae07c2bb03e2031358d8775db8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 032/137] fix: results of successful retries are lost, empty
 results get position zero

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 5420e2e..36f35d3 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2171,6 +2171,8 @@ class Grammar:
                         f'because of trailing whitespace.',
                         location, PARSER_STOPPED_BEFORE_END_WARNING))
                 location = L
+                if stitches and result is not None:
+                    stitches.append(result)  # result of a successful retry
         if stitches:
             if location < L:
                 stitches.append(Node(ZOMBIE_TAG, self.document__[location:])\
-- 
2.43.0


From 864668c8b4ecc9d80bfc0f92ccb62923bba00f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 033/137] fix: UTF-8 byte order marks are not removed

---
 DHParser/parse.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 36f35d3..03d16ca 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2008,7 +2008,6 @@ class Grammar:
             self.text__ = document[3:]
         else:
             self.text__ = document
-        self.text__ = document[1:] if document[0:1] in ('\ufeff', '\uffef') else document
         self.document__ = StringView(self.text__)
         self.document_length__ = len(self.document__)
         self._document_lbreaks__ = linebreaks(self.text__) if self.history_tracking__ else []
-- 
2.43.0


From d653e2dea91ae747c1b91d3d7143a39a930d5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 034/137] fix: empty results share a singleton or get position
 zero on retries

---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 03d16ca..c8af820 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2023,6 +2023,8 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
             if result is None:
                 result = Node(ZOMBIE_TAG, '').with_pos(0)
                 if lookahead_failure_only(parser):
@@ -2053,7 +2055,7 @@ class Grammar:
                 location = L
                 self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
-                result = Node(EMPTY_PTYPE, '').with_pos(0)
+                result = Node(EMPTY_PTYPE, '').with_pos(tail_pos(stitches))
 
             ## begin of error-handling
 
-- 
2.43.0


From 294f200ce3013ccff2f48cb0867c685c58932cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 035/137] fix: text lost or displaced when an error falls
 through to the root

---
 DHParser/parse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c8af820..35d9e3e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -685,8 +685,9 @@ class Parser:
             assert pe.node._children or (not pe.node.result)
             # apply reentry-rule or catch error at root-parser
             if i < 0:  i = 0
-            zombie = pe.node.pick_child(artifact)  # type: Optional[Node]
-            if zombie and not zombie.result:
+            # only a trailing artifact can take up the skipped text without displacing it
+            zombie = pe.node._children[-1] if pe.node._children else None  # type: Optional[Node]
+            if zombie and artifact(zombie) and not zombie.result:
                 zombie.result = rest[:i]
                 zombie.name = skip_node.name
                 tail = tuple()  # type: ChildrenType
@@ -708,10 +709,11 @@ class Parser:
         elif grammar.tree__.errors[-1].code in \
                 (MANDATORY_CONTINUATION_AT_EOF, MANDATORY_CONTINUATION_AT_EOF_NON_ROOT):
             # try to create tree as faithful as possible
-            node = Node(self.node_name, pe.node).with_pos(location)
+            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
+            node = Node(self.node_name, result).with_pos(location)
         else:
             # fall through but skip the gap
-            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
+            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node
             raise pe.new_PE(node=Node(self.node_name, result).with_pos(location),
                             node_orig_len=pe.node_orig_len + gap,
                             location=location, first_throw=False)
@@ -2046,7 +2048,7 @@ class Grammar:
                 # undo variable changes of failed attempts to continue at the final location
                 self.rollback_to__(location)
             except ParserError as pe:
-                result, location = pe.node, L
+                result, location = pe.node, pe.location + pe.node_orig_len
                 self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
@@ -2073,7 +2075,7 @@ class Grammar:
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
-                if result is None or (result.name == ZOMBIE_TAG and len(result) == 0):
+                if result is None or (result.name == ZOMBIE_TAG and result.strlen() == 0):
                     err_pos = self.ff_pos__
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
                     if associated_symbol != self.ff_parser__:
-- 
2.43.0


From dc586900068bd152506d714d2b94c2bdd35a7926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 036/137] fix: dropping a symbol that contains whitespace
 (wsp__) does not drop all other whitespace

---
 DHParser/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 35d9e3e..72ceffa 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1324,10 +1324,12 @@ def reset_parser(parser):
 
 
 def _propagate_drop(p: Parser):
-    """propagates the drop_content flag to all unnamed children."""
+    """propagates the drop_content flag to all unnamed children, except
+    whitespace-parsers, because the same whitespace-parser (``wsp__``) is
+    used in all places, including those where its content is not dropped."""
     assert p.drop_content
     for c in p.sub_parsers:
-        if not c.pname:
+        if not c.pname and not isinstance(c, Whitespace):
             c.drop_content = True
             _propagate_drop(c)
 
-- 
2.43.0


From 11cf469ea4a6f77516d9da54428811c693d8cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:42 +0000
Subject: [PATCH 037/137] fix: errors of documents that have not been matched
 completely are located where the match ended, even if content was dropped

---
 DHParser/parse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 72ceffa..f9d3923 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2059,7 +2059,7 @@ class Grammar:
                 location = L
                 self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
-                result = Node(EMPTY_PTYPE, '').with_pos(tail_pos(stitches))
+                result = Node(EMPTY_PTYPE, '').with_pos(location)
 
             ## begin of error-handling
 
@@ -2075,6 +2075,7 @@ class Grammar:
                         re.fullmatch(getattr(self, complete_match),
                                      self.text__[location:]) is None)):
                 rest = self.document__[location:]
+                match_end = location  # the tree can end earlier, if content has been dropped
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
                 if result is None or (result.name == ZOMBIE_TAG and result.strlen() == 0):
@@ -2130,7 +2131,7 @@ class Grammar:
                         error_code = PARSER_LOOKAHEAD_MATCH_ONLY
                         max_parser_dropouts = -1  # no further retries!
                     else:
-                        i = self.ff_pos__ if self.ff_pos__ >= 0 else tail_pos(stitches)
+                        i = self.ff_pos__ if self.ff_pos__ >= 0 else match_end
                         err_pos = i
                         fs = self.document__[i:i + 10].replace('\n', '\\n')
                         if i + 10 < len(self.document__) - 1:  fs += '...'
@@ -2144,7 +2145,7 @@ class Grammar:
                              else " too often!" if self.max_parser_dropouts__ > 1 else " " +
                              "Terminating parser.")
                         error_code = PARSER_STOPPED_BEFORE_END
-                stitch = Node(ZOMBIE_TAG, skip).with_pos(tail_pos(stitches))
+                stitch = Node(ZOMBIE_TAG, skip).with_pos(match_end)
                 stitches.append(stitch)
                 if stitch.pos > 0:
                     if self.ff_pos__ > err_pos:
@@ -2180,8 +2181,7 @@ class Grammar:
                     stitches.append(result)  # result of a successful retry
         if stitches:
             if location < L:
-                stitches.append(Node(ZOMBIE_TAG, self.document__[location:])\
-                                .with_pos(tail_pos(stitches)))
+                stitches.append(Node(ZOMBIE_TAG, self.document__[location:]).with_pos(location))
             result = Node(ZOMBIE_TAG, tuple(stitches)).with_pos(0)
         if any(self.variables__.values()):
             # capture stack not empty will only be reported for root-parsers
-- 
2.43.0


From 9b446d58e436fc641e4fe4ce7142b60d0c0f5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 038/137] fix: drop the content of dropped any-char-parsers

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f9d3923..bc2a554 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2535,6 +2535,8 @@ class AnyChar(Unparameterized):
         L = len(text)
         if location < L:
             location_ = location + 1
+            if self.drop_content:
+                return EMPTY_NODE, location_
             return Node(self.node_name, text[location:location_], True), location_
         else:
             return None, location
-- 
2.43.0


From eaaa766471f306d0de9bb50d1169b73345f7a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 039/137] fix: dropped regular expressions with nested brackets
 in definitions like A = /((a))b/ ~

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8a000c7..fe11903 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2841,7 +2841,8 @@ class EBNFCompiler(Compiler):
                      if arg not in EBNFCompiler.COMMENT_OR_WHITESPACE]) == 1
             and all((arg.startswith(drop_regexp) or arg.startswith(drop_text)
                      or arg in EBNFCompiler.COMMENT_OR_WHITESPACE) for arg in arguments)):
-            arguments = [arg.replace(drop_clause, '').replace('))', ')') for arg in arguments]
+            arguments = [arg[len(drop_clause):-1] if arg.startswith((drop_regexp, drop_text))
+                         else arg for arg in arguments]
         return parser_class + '(' + ', '.join(arguments) + ')'
 
 
-- 
2.43.0


From 18075bee886b6625fea1a68694a5ae91dcfd21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 040/137] fix: grammar objects of the same class do not share
 the parsers of skip- and resume-rules

---
 DHParser/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index bc2a554..d87b80f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1802,9 +1802,12 @@ class Grammar:
         self.unconnected_parsers__: MutableSet[Parser] = set()
         self.resume_parsers__: MutableSet[Parser] = set()
         resume_lists = []
+        # don't share the lists with other instances, because of the parsers in these lists
         if hasattr(self, 'resume_rules__'):
+            self.resume_rules__ = {k: list(l) for k, l in self.resume_rules__.items()}
             resume_lists.extend(self.resume_rules__.values())
         if hasattr(self, 'skip_rules__'):
+            self.skip_rules__ = {k: list(l) for k, l in self.skip_rules__.items()}
             resume_lists.extend(self.skip_rules__.values())
         for l in resume_lists:
             for i in range(len(l)):
-- 
2.43.0


From c415fdcd5ea989148de0328bf47e28e9c5c97670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 041/137] fix: error code for variables not cleared does not
 depend on the memory layout

---
 DHParser/parse.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index d87b80f..3b09411 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1167,21 +1167,26 @@ def is_parser_placeholder(parser: Optional[Parser]) -> bool:
 # functions for analysing the parser tree/graph ###
 
 
-def has_non_autocaptured_symbols(ptrail: ParserTrail) -> Optional[bool]:
-    """Returns True, if the parser-path contains a Capture-Parser that is not
-    shielded by a Retrieve-Parser. This is the case for captured symbols
+def has_non_autocaptured_symbols(root: Parser) -> bool:
+    """Returns True, if a Capture-Parser can be reached from ``root`` that is
+    not shielded by a Retrieve-Parser. This is the case for captured symbols
     that are not "auto-captured" by a Retrieve-Parser.
     """
-    for parser in ptrail:
-        if parser.ptype == ":Retrieve":
-            break
-        elif parser.ptype == ":Capture":
+    visited = set()  # type: MutableSet[Parser]
+    pending = [root]  # type: List[Parser]
+    while pending:
+        parser = pending.pop()
+        if parser in visited or isinstance(parser, Retrieve):
+            continue
+        visited.add(parser)
+        if parser.ptype == ":Capture":
             p = cast(UnaryParser, parser).parser
             while p.ptype in (":Synonym", ":Forward"):
                 p = cast(UnaryParser, p).parser
             if not isinstance(p, Retrieve):
                 return True
-    return None
+        pending.extend(parser.sub_parsers)
+    return False
 
 
 ########################################################################
@@ -2192,7 +2197,7 @@ class Grammar:
             error_msg = "Capture-stack not empty after end of parsing: " \
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
-            if parser.apply_to_trail(has_non_autocaptured_symbols):
+            if has_non_autocaptured_symbols(parser):
                 if all(cast(Capture, self[v]).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
-- 
2.43.0


From e6b2f47df6565adaf46f2050085f740425007432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 042/137] fix: tracing and cancellation queries can be switched
 on and off in any order

---
 DHParser/parse.py | 5 +++--
 DHParser/trace.py | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 3b09411..4fb2480 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2269,11 +2269,12 @@ class Grammar:
 
 
     def set_cancel_query__(self):
-        if self.cancel_query__ != self.cancel_query_last__:
+        if self.cancel_query__ is not None or self.cancel_query_last__ is not None:
             for p in self.all_parsers__:
                 if isinstance(p, LeafParser):
                     if self.cancel_query__ is None:
-                        p.set_proxy(None)
+                        if p._parse_proxy.__name__ == "cancel_proxy":
+                            p.set_proxy(None)
                     elif p._parse_proxy == p._parse:
                         p.set_proxy(cancel_proxy)
                     else:
diff --git a/DHParser/trace.py b/DHParser/trace.py
index e7e0f67..3370db3 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -91,6 +91,8 @@ def set_tracer(parsers: Union[Grammar, Parser, Iterable[Parser]], tracer: Option
             pivot._grammar.resume_notices__ = True
         for parser in parsers:
             if parser.ptype != ':Forward':
+                if tracer is not None and parser._parse_proxy.__name__ == 'cancel_proxy':
+                    parser.set_proxy(None)  # tracers take over the polling of cancel_query__
                 parser.set_proxy(tracer)
 
 
-- 
2.43.0


From 1e79936c1845e94deede903b92f166722c0272c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 043/137] fix: whether a variable can capture the empty string
 is determined with the empty document and independently of earlier parses

---
 DHParser/parse.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 4fb2480..c928c06 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1829,6 +1829,12 @@ class Grammar:
         for p in self.all_parsers__:  reset_parser(p)
         if not root:  TreeReduction(self.all_parsers__, self.early_tree_reduction__)
 
+        captures = [p for p in self.all_parsers__ if isinstance(p, Capture)]
+        if captures:
+            for p in captures:  p.determine_zero_length_capture()
+            self._reset__()
+            for p in self.all_parsers__:  reset_parser(p)
+
         if (self.static_analysis_pending__
             and (static_analysis
                  or (static_analysis is None
@@ -4870,9 +4876,16 @@ class Capture(ContextSensitive):
 
     @property
     def can_capture_zero_length(self) -> bool:
-        if self._can_capture_zero_length is None:
+        return bool(self._can_capture_zero_length)
+
+    def determine_zero_length_capture(self):
+        """Finds out whether the captured parser matches the empty document.
+        Must be called before the first document is parsed. The parsers and
+        the grammar-object must be reset, thereafter."""
+        try:
             self._can_capture_zero_length = self.parser._parse(0)[0] is not None
-        return cast(bool, self._can_capture_zero_length)
+        except ParserError:
+            self._can_capture_zero_length = False
 
     def _rollback(self):
         return self._grammar.variables__[self.pname].pop()
@@ -4906,17 +4919,12 @@ class Capture(ContextSensitive):
                 'which can lead to unintended results!' % (self.pname or str(self)),
                 0, CAPTURE_DROPPED_CONTENT_WARNING
             )))
-        if self.zero_length_warning:
-            node, _ = self.parser._parse(0)
-            if node is not None:
-                errors.append(AnalysisError(self.pname, self, Error(
-                    'Variable "%s" captures zero length strings, which can lead to '
-                    'its remaining on the stack after backtracking!' % (self.pname or str(self)),
-                    0, ZERO_LENGTH_CAPTURE_POSSIBLE_WARNING
-                )))
-                self._can_capture_zero_length = True
-            else:
-                self._can_capture_zero_length = False
+        if self.zero_length_warning and self.can_capture_zero_length:
+            errors.append(AnalysisError(self.pname, self, Error(
+                'Variable "%s" captures zero length strings, which can lead to '
+                'its remaining on the stack after backtracking!' % (self.pname or str(self)),
+                0, ZERO_LENGTH_CAPTURE_POSSIBLE_WARNING
+            )))
         return errors
 
 
-- 
2.43.0


From c79a792c5c8568b0b0826fdc42d2d38fff72c989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 044/137] fix: instantiating a grammar class for the first time
 in several threads at once

---
 DHParser/parse.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c928c06..aa2762f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -35,6 +35,7 @@ import functools
 from collections import defaultdict
 import copy
 from functools import lru_cache
+import threading
 from typing import Callable, cast, Collection, DefaultDict, Sequence, Union, Optional, \
     NamedTuple, Iterator
 
@@ -1321,6 +1322,9 @@ def cancel_proxy(self: Parser, location: cython.int) -> Tuple[Optional[Node], cy
     return self._parse(location)
 
 
+# protects the initialization of Grammar-classes upon their first instantiation
+GRAMMAR_CLASS_LOCK = threading.RLock()
+
 RESERVED_PARSER_NAMES = ('root__', 'dwsp__', 'wsp__', 'comment__', 'root_parser__', 'ff_parser__')
 
 
@@ -1776,7 +1780,8 @@ class Grammar:
         self._reset__()
 
         # prepare parsers in the class, first
-        self.__class__._assign_parser_names__()
+        with GRAMMAR_CLASS_LOCK:
+            self.__class__._assign_parser_names__()
 
         # then deep-copy the parser tree from class to instance;
         # parsers not connected to the root object will be copied later
@@ -1840,11 +1845,13 @@ class Grammar:
                  or (static_analysis is None
                      and get_config_value('static_analysis') in {'early', 'late'}))):
             analysis_errors = self.static_analysis__()
-            # clears any stored errors without overwriting the pointer
-            while self.static_analysis_errors__:
-                self.static_analysis_errors__.pop()
-            self.static_analysis_errors__.extend(analysis_errors)
-            self.static_analysis_pending__.pop()
+            with GRAMMAR_CLASS_LOCK:
+                # clears any stored errors without overwriting the pointer
+                while self.static_analysis_errors__:
+                    self.static_analysis_errors__.pop()
+                self.static_analysis_errors__.extend(analysis_errors)
+                if self.static_analysis_pending__:  # not yet done in another thread
+                    self.static_analysis_pending__.pop()
             # raise a GrammarError even if result only contains warnings.
             # It is up to the caller to decide whether to ignore warnings
             # # has_errors = any(is_error(tpl[-1].code) for tpl in result)
-- 
2.43.0


From cd034a17eb8a96cdb92b034ac78646a0c2df1f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 045/137] fix: tracing a parser that succeeds while the history
 is still empty

---
 DHParser/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/trace.py b/DHParser/trace.py
index 3370db3..48345ac 100644
--- a/DHParser/trace.py
+++ b/DHParser/trace.py
@@ -268,7 +268,7 @@ def trace_history(self: Parser, location: cython.int) -> Tuple[Optional[Node], c
     if ((self.node_name != WHITESPACE_PTYPE)
         and (grammar.moving_forward__
              or (not self.disposable
-                 and (node and grammar.history__[-1].node))
+                 and (node and grammar.history__ and grammar.history__[-1].node))
              or result_changed(node, grammar.history__))):
         # record history
         # TODO: Make dropping insignificant whitespace from history configurable
@@ -281,7 +281,7 @@ def trace_history(self: Parser, location: cython.int) -> Tuple[Optional[Node], c
             if len(record.call_stack) >= 2 and \
                     record.call_stack[-2][0] in (":Lookbehind", ":NegativeLookbehind"):
                 record.text = grammar.reversed__[len(grammar.document__) - location_:]
-            if not grammar.moving_forward__ \
+            if not grammar.moving_forward__ and grammar.history__ \
                     and not any(tag in (':Lookahead', ":NegativeLookahead")
                                 or tag.endswith(":SmartRE_Lookahead")
                                 for tag, _ in grammar.history__[-1].call_stack):
-- 
2.43.0


From 2e28fd075654daa1b9f025cc5b0d741cf87c1c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 046/137] fix: look up symbols deterministically when parsers
 have been duplicated by deep-copying

---
 DHParser/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index aa2762f..dd9953d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1803,6 +1803,9 @@ class Grammar:
             self.static_analysis_errors__ = self.__class__.static_analysis_errors__
         self.static_analysis_caches__ = dict()  # type: Dict[str, Dict]
 
+        # add the root-parser first, because deep-copying recursive parsers
+        # can leave more than one parser of the same name
+        self._add_parser__(self.root_parser__)
         self.root_parser__.apply(self._add_parser__, self)
         root_connected = frozenset(self.all_parsers__)
 
@@ -1877,6 +1880,7 @@ class Grammar:
                         f'Illegal parser-name "{key}" for grammar {self.__class__.__name__}!')
                 # add parser to grammar-object on the fly...
                 parser = copy.deepcopy(parser_template)
+                self._add_parser__(parser)
                 parser.apply(self._add_parser__, self)
                 assert self[key] == parser
                 return self[key]
-- 
2.43.0


From 30b175b306ba55bb35d5b5c2405b15dbbc521fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 047/137] fix: canceling the parsing of an empty document

---
 DHParser/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index dd9953d..ef1ec42 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2052,6 +2052,11 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            except CancelError:
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
+                self.tree__.new_error(
+                    result, 'Parsing was canceled at position: 0 of 0!', CANCELED)
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
             if result is None:
-- 
2.43.0


From 8e7cc1d1e3ece0fd4f493575b0557ca98efda0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 048/137] fix: most advanced match or fail of the
 parsing-history

---
 DHParser/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index 6ebee8e..285e34c 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -521,7 +521,8 @@ class HistoryRecord:
 
     @property
     def remaining(self) -> int:
-        return len(self.text) - self.node.strlen()
+        # self.text is the text that follows after the match, if there was any
+        return len(self.text)
 
     @staticmethod
     def last_match(history: List['HistoryRecord']) -> Union['HistoryRecord', None]:
-- 
2.43.0


From 3bbb9b45abb2554cc5491c982c267b7dd70178d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 049/137] fix: unclosed span in HTML-log of the parsing-history

---
 DHParser/log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index 285e34c..632750e 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -449,7 +449,8 @@ class HistoryRecord:
                 i += 12
                 k = stack.find('<', i)
                 if k < 0:
-                    stack = ''.join([stack[:i], '<span class="matchstack">', stack[i:]])
+                    stack = ''.join([stack[:i], '<span class="matchstack">', stack[i:],
+                                     '</span>'])
                 else:
                     stack = ''.join([stack[:i], '<span class="matchstack">', stack[i:k],
                                      '</span>', stack[k:]])
-- 
2.43.0


From 1818cc99c8d6d885ef75c55b2909be99752fed14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 050/137] fix: resume_logging() without arguments left logging
 switched off

---
 DHParser/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/log.py b/DHParser/log.py
index 632750e..5821e8a 100644
--- a/DHParser/log.py
+++ b/DHParser/log.py
@@ -125,7 +125,7 @@ def suspend_logging() -> str:
 
 def resume_logging(log_dir: str = ''):
     """Resumes logging in the current thread with the given log-dir."""
-    if not 'log_dir':
+    if not log_dir:
         access_presets()
         log_dir = get_preset_value('log_dir')
         finalize_presets()
-- 
2.43.0


From f4d9c5c78b259c45df52f9edf9195ef3cf682773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 051/137] fix: a cancel-query assigned to a compiler was reset
 when calling the compiler

---
 DHParser/compile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e298bc7..84f4aba 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -260,10 +260,11 @@ class Compiler:
         if self._dirty_flag:
             self.reset()
         self._dirty_flag = True
-        self.cancel_query = cancel_query
+        if cancel_query is not None:  # otherwise, cancel_query may have been assigned beforehand
+            self.cancel_query = cancel_query
         self.tree = root if isinstance(root, RootNode) else RootNode(root)
-        self.prepare(self.tree)
         try:
+            self.prepare(self.tree)
             result = self.compile(self.tree)
             while self.finalizers:
                 task, parameters = self.finalizers.pop()
-- 
2.43.0


From 24d8c4262ec122fadbf58c254802718e8fefcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 052/137] fix: cancel-query remained in force in parser-objects
 after compile_source()

---
 DHParser/compile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 84f4aba..fd0baaf 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -508,6 +508,7 @@ def compile_source(source: str,
 
     if hasattr(parser, 'cancel_query__'):  parser.cancel_query__ = cancel_query
     syntax_tree: RootNode = parser(source_text, start_parser, source_mapping)
+    if hasattr(parser, 'cancel_query__'):  parser.cancel_query__ = None
     syntax_tree.docname = source_name if source_name else "DHParser_Document"
     for e in errors:  syntax_tree.add_error(None, e)
     syntax_tree.source = original_text
@@ -560,6 +561,8 @@ def compile_source(source: str,
             if hasattr(compiler, 'cancel_query'):
                 compiler.cancel_query = cancel_query
             result = process_tree(compiler, syntax_tree)
+            if hasattr(compiler, 'cancel_query'):
+                compiler.cancel_query = None
 
     messages = syntax_tree.errors_sorted  # type: List[Error]
     # Obsolete, because RootNode adjusts error locations whenever an error is added:
-- 
2.43.0


From b16618e33a2ac6cb3e97583d99faa41f77e4e25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 053/137] fix: pass cancel-query to AST-transformation also if
 there are no errors

---
 DHParser/compile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index fd0baaf..ed5b171 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -528,6 +528,8 @@ def compile_source(source: str,
 
         # AST-transformation
 
+        if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
+        cst = syntax_tree
         if is_error(syntax_tree.error_flag):
             # catch Python exception, because if an error has occurred
             # earlier, the syntax tree might not look like expected,
@@ -542,6 +544,9 @@ def compile_source(source: str,
                                       AST_TRANSFORM_CRASH)
         else:
             syntax_tree = transformer(syntax_tree)
+        if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = None
+        if syntax_tree is None and is_fatal(cst.error_flag):
+            syntax_tree = cst  # transformation has been canceled
         assert isinstance(syntax_tree, RootNode)
         # syntax_tree.stage = 'AST'
 
-- 
2.43.0


From 97b668054f73d31fff3aab30b85ddf9675962281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 054/137] fix: report cancellation of a pipeline among the
 errors of its result

---
 DHParser/pipeline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 96627e0..69d89c8 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -350,9 +350,14 @@ def run_pipeline(junctions: Set[Junction],
                     elif hasattr(transformation, 'cancel_query__'):
                         transformation.cancel_query__ = cancel_query
                     results[t] = process_tree(transformation, tree)  # TODO: pass cancel query, here
-                    errata[t] = copy.copy(tree.errors_sorted)
-                    if cancel_query is not None and cancel_query():
+                    if hasattr(transformation, 'cancel_query'):
+                        transformation.cancel_query = None
+                    elif hasattr(transformation, 'cancel_query__'):
+                        transformation.cancel_query__ = None
+                    if cancel_query is not None and not is_fatal(tree.error_flag) \
+                            and cancel_query():
                         tree.new_error(tree, "Pipeline-processing canceled!", CANCELED)
+                    errata[t] = copy.copy(tree.errors_sorted)
                     if is_fatal(tree.error_flag):
                         cancel = True
                         break
-- 
2.43.0


From fbd07c1661dc2be2222fbe447777635b727313e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 055/137] fix: assign cancel-query of the AST-transformation
 only once

---
 DHParser/compile.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index ed5b171..e3c802d 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -535,7 +535,6 @@ def compile_source(source: str,
             # earlier, the syntax tree might not look like expected,
             # which could (fatally) break AST transformations.
             try:
-                if hasattr(transformer, 'cancel_query'):  transformer.cancel_query = cancel_query
                 syntax_tree = transformer(syntax_tree)
             except Exception as e:
                 syntax_tree.new_error(syntax_tree,
-- 
2.43.0


From d28c84ac9a17c97b674e852342eff1a8a14a4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 056/137] fix: search-rules containing single quotes yielded
 invalid Python code

---
 DHParser/ebnf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index fe11903..632d435 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1872,6 +1872,10 @@ class EBNFCompiler(Compiler):
         return getattr(self, 'smartRE_' + node.name)
 
 
+    def raw_str_literal(self, s: str) -> str:
+        """Returns ``s`` as Python-string-literal, preferably a raw-string."""
+        return repr(s) if "'" in s or '\n' in s else f"r'{s}'"
+
     def make_search_rule(self, node: Node, nd: Node, kind: str) -> ReprType:
         """Generates a search rule, which can be either a string for simple
         string search or a regular expression from the node's content. Returns
@@ -1888,10 +1892,11 @@ class EBNFCompiler(Compiler):
             nonempty_ws = mixin_nonempty(super_ws)
             search_regex = self.extract_regex(nd)\
                 .replace(r'\~!', nonempty_ws).replace(r'\~', super_ws)
-            return unrepr("re.compile(r'%s')" % search_regex)
+            return unrepr(f"re.compile({self.raw_str_literal(search_regex)})")
         elif nd.name == 'literal':
             s = nd.content[1:-1]  # remove quotation marks
-            return unrepr(f"re.compile(r'(?={re.escape(s)})')")
+            search_regex = self.raw_str_literal(f'(?={re.escape(s)})')
+            return unrepr(f"re.compile({search_regex})")
         elif nd.name == 'procedure':
             proc_name = nd.content
             self.py_symbols.add(proc_name)
-- 
2.43.0


From 9bd9d016f9d42128454738f4252a3e63171afbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 057/137] fix: parser-based search-rules overwrote each other

---
 DHParser/ebnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 632d435..a6120ba 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1914,7 +1914,7 @@ class EBNFCompiler(Compiler):
             for rule in self.rules.keys():
                 if rule[:L] == stub:
                     i = int(rule[L:].strip('_'))
-                    if i > nr:  nr = i + 1
+                    if i >= nr:  nr = i + 1
             rule = stub + str(nr) + '__'
             self.current_symbols = [node]
             self.rules[rule] = self.current_symbols
-- 
2.43.0


From b57f23e5f8888bedaa20233f27405a1d6560329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:37 +0000
Subject: [PATCH 058/137] fix: endless loop in search for reentry-point when
 string or function was not found

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index ef1ec42..f62bb93 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -412,7 +412,7 @@ def reentry_point(rest: StringView,
         while a < b <= k + length:
             a, b = next_comment()
         # find next as long as start or end point of resume regex are inside a comment
-        while (a < k < b) or (a < k + length < b):
+        while k >= 0 and ((a < k < b) or (a < k + length < b)):
             k, length = search_func(search_rule, b)
             while a < b <= k:
                 a, b = next_comment()
-- 
2.43.0


From ccdb04406247e15ba9762ee2c6d143780b16f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 059/137] fix: cubic effort of assigning positions when an
 error passes up deeply nested structures

---
 DHParser/nodetree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index eae673e..be1514c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -887,8 +887,10 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                     else:
                         nd._pos = pos
                         pos += len(nd._result)
+                elif nd._children:
+                    pos = nd._pos
                 else:
-                    pos = nd._pos + nd.strlen()
+                    pos = nd._pos + len(nd._result)
             # recursively adjust pos-values of all children
             # self._init_child_pos()
         return self
-- 
2.43.0


From 8a620188a07c10e10ce6b0ef925f493a3c76396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:10 +0000
Subject: [PATCH 060/137] fix: exponential effort of is_optional() during
 static analysis

---
 DHParser/parse.pxd |  1 +
 DHParser/parse.py  | 16 +++++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/DHParser/parse.pxd b/DHParser/parse.pxd
index 7484e30..09ad13b 100644
--- a/DHParser/parse.pxd
+++ b/DHParser/parse.pxd
@@ -116,6 +116,7 @@ cdef class LateBindingUnary(UnaryParser):
 
 cdef class NaryParser(CombinedParser):
     cdef public object parsers
+    cdef public object _optional
 
 
 cdef class Option(UnaryParser):
diff --git a/DHParser/parse.py b/DHParser/parse.py
index f62bb93..7bf23da 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4027,6 +4027,7 @@ class NaryParser(CombinedParser):
         # assert all(isinstance(p, Parser) for p in parsers)
         self.parsers = parsers  # type: Tuple[Parser, ...]
         self.sub_parsers = frozenset(parsers)
+        self._optional: Optional[bool] = False  # cache for is_optional(), False means: not yet determined
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
@@ -4120,10 +4121,10 @@ class Alternative(NaryParser):
         return Alternative(self, other)
 
     def is_optional(self) -> Optional[bool]:
-        if (self.parsers and self.parsers[-1].is_optional()) \
-                or any(p.is_optional() for p in self.parsers):
-            return True
-        return super().is_optional()
+        if self._optional is False:  # evaluate only once to avoid exponential growth
+            self._optional = True if any(p.is_optional() for p in self.parsers) \
+                else super().is_optional()
+        return self._optional
 
     def static_analysis(self) -> List['AnalysisError']:
         errors = super().static_analysis()
@@ -4547,9 +4548,10 @@ class Series(ErrorCatchingNary):
         return Series(self, other)
 
     def is_optional(self) -> Optional[bool]:
-        if all(p.is_optional() for p in self.parsers):
-            return True
-        return super().is_optional()
+        if self._optional is False:  # evaluate only once to avoid exponential growth
+            self._optional = True if all(p.is_optional() for p in self.parsers) \
+                else super().is_optional()
+        return self._optional
 
 
 class Interleave(ErrorCatchingNary):
-- 
2.43.0


From fcc81a60e6db16e150e64460a379ff2d19842538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:44 +0000
Subject: [PATCH 061/137] fix: groups and repetitions could not begin with a
 counted element like 3*y

---
 DHParser/ebnf.py                            | 4 ++--
 DHParser/ebnf_flavors/heuristic.py          | 4 ++--
 examples/FixedEBNF/FixedEBNF.ebnf           | 2 +-
 examples/FixedEBNF/FixedEBNFParser.py       | 2 +-
 examples/FlexibleEBNF/FlexibleEBNF.ebnf     | 2 +-
 examples/FlexibleEBNF/FlexibleEBNFParser.py | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index a6120ba..8d395f0 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -451,7 +451,7 @@ class ConfigurableEBNFGrammar(Grammar):
         counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ §countable
 
         range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
-        no_range   = !multiplier | &multiplier TIMES   # should that be &(multiplier TIMES)??
+        no_range   = !multiplier | &(multiplier TIMES)
         multiplier = /\d+/~
 
 
@@ -579,7 +579,7 @@ class ConfigurableEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__), mandatory=3)
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), TIMES)))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_OPEN, dwsp__, multiplier, Option(Series(RNG_DELIM, dwsp__, multiplier)), RNG_CLOSE, dwsp__)
diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index 1ab926a..bce15f9 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -207,7 +207,7 @@ class HeuristicEBNFGrammar(Grammar):
         counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~ §countable
 
         range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
-        no_range   = !multiplier | &multiplier :TIMES
+        no_range   = !multiplier | &(multiplier :TIMES)
         multiplier = /\d+/~
 
 
@@ -383,7 +383,7 @@ class HeuristicEBNFGrammar(Grammar):
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument),
                     Series(Text(")"), dwsp__))
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), Retrieve(TIMES))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES)))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression,
                    ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_BRACE, dwsp__, multiplier, Option(Series(Retrieve(RNG_DELIM), dwsp__, multiplier)),
diff --git a/examples/FixedEBNF/FixedEBNF.ebnf b/examples/FixedEBNF/FixedEBNF.ebnf
index af1c3b1..476481d 100644
--- a/examples/FixedEBNF/FixedEBNF.ebnf
+++ b/examples/FixedEBNF/FixedEBNF.ebnf
@@ -110,7 +110,7 @@ option     = !char_range "[" §expression "]" | element "?"
 counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ §countable
 
 range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
-no_range   = !multiplier | &multiplier TIMES   # should that be &(multiplier TIMES)??
+no_range   = !multiplier | &(multiplier TIMES)
 multiplier = /\d+/~
 
 
diff --git a/examples/FixedEBNF/FixedEBNFParser.py b/examples/FixedEBNF/FixedEBNFParser.py
index 9353840..245852e 100755
--- a/examples/FixedEBNF/FixedEBNFParser.py
+++ b/examples/FixedEBNF/FixedEBNFParser.py
@@ -132,7 +132,7 @@ class FixedEBNFGrammar(Grammar):
     symbol = Series(SYM_REGEX, dwsp__)
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument), Series(Text(")"), dwsp__), mandatory=3)
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), TIMES)))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression, ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_OPEN, dwsp__, multiplier, Option(Series(RNG_DELIM, dwsp__, multiplier)), RNG_CLOSE, dwsp__)
     counted = Alternative(Series(countable, range), Series(countable, TIMES, dwsp__, multiplier), Series(multiplier, TIMES, dwsp__, countable, mandatory=3))
diff --git a/examples/FlexibleEBNF/FlexibleEBNF.ebnf b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
index 9b097be..d19be3c 100644
--- a/examples/FlexibleEBNF/FlexibleEBNF.ebnf
+++ b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
@@ -127,7 +127,7 @@ option     = !char_range "[" §expression "]" | element "?"
 counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~ §countable
 
 range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
-no_range   = !multiplier | &multiplier :TIMES
+no_range   = !multiplier | &(multiplier :TIMES)
 multiplier = /\d+/~
 
 
diff --git a/examples/FlexibleEBNF/FlexibleEBNFParser.py b/examples/FlexibleEBNF/FlexibleEBNFParser.py
index 04fdf38..30d38b1 100755
--- a/examples/FlexibleEBNF/FlexibleEBNFParser.py
+++ b/examples/FlexibleEBNF/FlexibleEBNFParser.py
@@ -159,7 +159,7 @@ class FlexibleEBNFGrammar(Grammar):
     symbol = Series(SYM_REGEX, dwsp__)
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument), Series(Text(")"), dwsp__))
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), Retrieve(TIMES))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES)))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression, ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_BRACE, dwsp__, multiplier, Option(Series(Retrieve(RNG_DELIM), dwsp__, multiplier)), Pop(RNG_BRACE, match_func=matching_bracket), dwsp__)
     counted = Alternative(Series(countable, range), Series(countable, Retrieve(TIMES), dwsp__, multiplier), Series(multiplier, Retrieve(TIMES), dwsp__, countable, mandatory=3))
-- 
2.43.0


From e6b60ea539de6ec11f3b87067aa538d401739710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:15 +0000
Subject: [PATCH 062/137] fix: characters and character ranges given by number
 compiled to broken or wrong regular expressions

---
 DHParser/ebnf.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 8d395f0..b145052 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -764,6 +764,16 @@ LEAF_PARSER_NODES = {'plaintext', 'regexp', 'char_ranges', 'char_range',
                      'character', 'any_char'}
 
 
+def reduce_character(path: Path):
+    """Reduces a "character" to its hexadecimal code. Inside a char_ranges-node,
+    i.e. within a regular expression, the text is left as it is."""
+    node = path[-1]
+    if node.children and not any(nd.name == 'char_ranges' for nd in path[:-1]):
+        node.result = node.pick('HEXCODE').content
+    else:
+        node.result = node.content
+
+
 def get_globals(path: Path) -> Dict[str, Any]:
     root = path[0]
     globals = root.get_attr('globals', None)
@@ -946,7 +956,7 @@ EBNF_AST_transformation_table = {
     "char_range, range_chain":
         [flatten, remove_tokens('[', ']')],
     "character":
-        [remove_children('CH_LEADIN'), reduce_single_child],
+        [reduce_character],
     "free_char":
         [],
     (TOKEN_PTYPE, WHITESPACE_PTYPE, "whitespace"):
@@ -1000,6 +1010,8 @@ def transform_ebnf(cst: RootNode) -> RootNode:
 
 def serialize_character(path: Path, content: str) -> str:
     assert isinstance(content, str)
+    if any(nd.name == 'char_ranges' for nd in path):
+        return content  # part of a regular expression
     l = len(content)
     assert l <= 8
     d, prefix = (2, "\\x") if l <= 2 else (4, "\\u") if l <= 4 else (8, "\\U")
@@ -3640,13 +3652,13 @@ class EBNFCompiler(Compiler):
             node = self.on_range_desc(node)
         arg = re.sub(r"(?<!\\)'", r'\'', node.content)
         group = '(?:' if self.drop_on(DROP_REGEXP) else '('
-        re_str = ''.join([group, '[', re.sub(r"(?<!\\)]", r'\]', arg), '])'])
+        re_str = ''.join([group, '[', arg, '])'])
         return re_str.replace('{', '{{').replace('}', '}}'), f'/[{arg}]/'
 
     def on_char_range(self, node) -> str:
-        re_str, _ = self.smartRE_char_range(node)
-        re_str = re_str[re_str.find('['): -1]
-        return f"{self.P['RegExp']}('{re_str}')"
+        _, repr_str = self.smartRE_char_range(node)
+        rx = self.check_rx(node, repr_str[1:-1])
+        return self.REGEXP_PARSER(rx, self.drop_on(DROP_REGEXP))
 
 
     def on_range_chain(self, node) -> Node:
@@ -3666,8 +3678,7 @@ class EBNFCompiler(Compiler):
 
     def extract_free_char(self, node: Node) -> str:
         assert len(node.content) == 1 or (node.content[0:1] == '\\' and len(node.content) == 2), node.content
-        bytestr = node.content.encode('unicode-escape')
-        return bytestr.decode()
+        return node.content
 
     def extract_character(self, node: Node) -> str:
         hexcode = node.content
@@ -3687,8 +3698,8 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), f'/{arg}/'
 
     def on_character(self, node: Node) -> str:
-        return f"{self.P['RegExp']}('[{self.extract_character(node)}]')"
-        # return "RegExp('%s')" % self.extract_character(node)
+        rx = self.check_rx(node, f'[{self.extract_character(node)}]')
+        return self.REGEXP_PARSER(rx, self.drop_on(DROP_REGEXP))
 
 
     def smartRE_any_char(self, node: Node) -> Tuple[str, str]:
-- 
2.43.0


From e9ec619a32d9c58e0202d3fca92a2ae0b8f63c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 063/137] fix: literals containing (escaped) quotation marks
 compiled to invalid Python code

---
 DHParser/ebnf.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index b145052..97cc48a 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3526,10 +3526,19 @@ class EBNFCompiler(Compiler):
         right = self.WSPC_PARSER(force) if 'right' in lws else ''
         # content = escape_ctrl_chars(node.content)
         content = node.content
+        if content[1:-1].find(content[0]) >= 0:  # remove escapes of the quotation mark
+            content = content[0] + content[1:-1].replace('\\' + content[0], content[0]) + content[0]
         if (content[:1] + content[-1:]) == "’’":
-            content = '"' + content[1:-1].replace('"', r'\"') + '"'
+            q = '"' if content.find('"') < 0 else "'"
+            content = q + content[1:-1] + q
         return content, left, right
 
+    def python_literal(self, content: str) -> str:
+        """Returns the quoted content as Python string-literal."""
+        if content[1:-1].find(content[0]) >= 0:  # contains all kinds of quotation marks
+            return repr(content[1:-1])
+        return escape_ctrl_chars(content)
+
     def whitespace_rx(self, ws: str) -> str:
         # TODO: doctests required
         """Returns a regular expression for whitespace, possibly including comments"""
@@ -3583,13 +3592,15 @@ class EBNFCompiler(Compiler):
         if 'literal' in self.directives.optimizations and (left and right):
             q = content[0]
             literal = self.literal_rx(content[1:-1], left, right, escape_braces=True)
-            rxp = ''.join(['fr', q, literal, q])
+            rxp = ''.join(['fr', q, literal.replace(q, '\\' + q), q])
             rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
-            content = escape_ctrl_chars(content)
-            content = ''.join([q, '\\', content[:-1], '\\', content[-1], q])
+            if content[1:-1].find(q) >= 0:
+                content = repr(content)
+            else:
+                content = escape_ctrl_chars(content)
+                content = ''.join([q, '\\', content[:-1], '\\', content[-1], q])
             return f"{self.P['SmartRE']}({rxp}, {content})"
-        content = escape_ctrl_chars(content)
-        center = self.TEXT_PARSER(content, self.drop_on(DROP_STRINGS))
+        center = self.TEXT_PARSER(self.python_literal(content), self.drop_on(DROP_STRINGS))
         if left or right:
             args = ", ".join(item for item in (left, center, right) if item)
             return f'{self.P["Series"]}({args})'
@@ -3601,12 +3612,8 @@ class EBNFCompiler(Compiler):
         return pattern.replace('{', '{{').replace('}', '}}'), node.content
 
     def on_plaintext(self, node: Node) -> str:
-        tk = escape_ctrl_chars(node.content)
-        rpl = '"' if tk.find('"') < 0 else "'" if tk.find("'") < 0 else ''
-        if rpl:
-            tk = rpl + tk[1:-1] + rpl
-        else:
-            tk = rpl + tk.replace('"', r'\"')[1:-1] + rpl
+        q = '"' if node.content.find('"') < 0 else "'"
+        tk = self.python_literal(q + node.content[1:-1] + q)
         return self.TEXT_PARSER(tk, self.drop_on(DROP_BACKTICKED))
 
 
-- 
2.43.0


From 0104ceb76fcc1d3ef62b2936e001fc34d5b4d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:07 +0000
Subject: [PATCH 064/137] fix: groups and repetitions could not begin with a
 character like 0x41

---
 DHParser/ebnf.py                            | 4 ++--
 DHParser/ebnf_flavors/heuristic.py          | 4 ++--
 examples/FixedEBNF/FixedEBNF.ebnf           | 2 +-
 examples/FixedEBNF/FixedEBNFParser.py       | 2 +-
 examples/FlexibleEBNF/FlexibleEBNF.ebnf     | 2 +-
 examples/FlexibleEBNF/FlexibleEBNFParser.py | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 97cc48a..7182175 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -452,7 +452,7 @@ class ConfigurableEBNFGrammar(Grammar):
 
         range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
         no_range   = !multiplier | &(multiplier TIMES)
-        multiplier = /\d+/~
+        multiplier = /(?!0x)\d+/~
 
 
         #: leaf-elements
@@ -555,7 +555,7 @@ class ConfigurableEBNFGrammar(Grammar):
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])',
diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index bce15f9..b8abb43 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -208,7 +208,7 @@ class HeuristicEBNFGrammar(Grammar):
 
         range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
         no_range   = !multiplier | &(multiplier :TIMES)
-        multiplier = /\d+/~
+        multiplier = /(?!0x)\d+/~
 
 
         #: leaf-elements
@@ -357,7 +357,7 @@ class HeuristicEBNFGrammar(Grammar):
                       Option(Pop(RE_LEADOUT, match_func=optional_last_value))))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])',
diff --git a/examples/FixedEBNF/FixedEBNF.ebnf b/examples/FixedEBNF/FixedEBNF.ebnf
index 476481d..586264d 100644
--- a/examples/FixedEBNF/FixedEBNF.ebnf
+++ b/examples/FixedEBNF/FixedEBNF.ebnf
@@ -111,7 +111,7 @@ counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ 
 
 range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
 no_range   = !multiplier | &(multiplier TIMES)
-multiplier = /\d+/~
+multiplier = /(?!0x)\d+/~
 
 
 #: leaf-elements
diff --git a/examples/FixedEBNF/FixedEBNFParser.py b/examples/FixedEBNF/FixedEBNFParser.py
index 245852e..0e3d48e 100755
--- a/examples/FixedEBNF/FixedEBNFParser.py
+++ b/examples/FixedEBNF/FixedEBNFParser.py
@@ -116,7 +116,7 @@ class FixedEBNFGrammar(Grammar):
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])', '/[^\\n\\[\\]\\\\]/|/\\\\[nrtfv`´\'"(){}\\[\\]\\/\\\\]/')
diff --git a/examples/FlexibleEBNF/FlexibleEBNF.ebnf b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
index d19be3c..7099013 100644
--- a/examples/FlexibleEBNF/FlexibleEBNF.ebnf
+++ b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
@@ -128,7 +128,7 @@ counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~
 
 range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
 no_range   = !multiplier | &(multiplier :TIMES)
-multiplier = /\d+/~
+multiplier = /(?!0x)\d+/~
 
 
 #: leaf-elements
diff --git a/examples/FlexibleEBNF/FlexibleEBNFParser.py b/examples/FlexibleEBNF/FlexibleEBNFParser.py
index 30d38b1..7599815 100755
--- a/examples/FlexibleEBNF/FlexibleEBNFParser.py
+++ b/examples/FlexibleEBNF/FlexibleEBNFParser.py
@@ -144,7 +144,7 @@ class FlexibleEBNFGrammar(Grammar):
     EOF = Drop(Series(SmartRE(f'(?!.)', '!/./'), Option(Pop(ENDL, match_func=optional_last_value)), Option(Pop(DEF, match_func=optional_last_value)), Option(Pop(OR, match_func=optional_last_value)), Option(Pop(AND, match_func=optional_last_value)), Option(Pop(RNG_DELIM, match_func=optional_last_value)), Option(Pop(BRACE_SIGN, match_func=optional_last_value)), Option(Pop(CH_LEADIN, match_func=optional_last_value)), Option(Pop(TIMES, match_func=optional_last_value)), Option(Pop(RE_LEADIN, match_func=optional_last_value)), Option(Pop(RE_LEADOUT, match_func=optional_last_value))))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
+    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])', '/[^\\n\\[\\]\\\\]/|/\\\\[nrtfv`´\'"(){}\\[\\]\\/\\\\]/')
-- 
2.43.0


From 312c9b84928f684e9cc89d457aa99fc81c5ff201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 065/137] fix: heuristic EBNF: commas were rejected after a
 definition without sequence

---
 DHParser/ebnf_flavors/heuristic.py          | 4 ++--
 examples/FlexibleEBNF/FlexibleEBNF.ebnf     | 2 +-
 examples/FlexibleEBNF/FlexibleEBNFParser.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/DHParser/ebnf_flavors/heuristic.py b/DHParser/ebnf_flavors/heuristic.py
index b8abb43..4aa979d 100755
--- a/DHParser/ebnf_flavors/heuristic.py
+++ b/DHParser/ebnf_flavors/heuristic.py
@@ -252,7 +252,7 @@ class HeuristicEBNFGrammar(Grammar):
         DEF        = _DEF
         _DEF       = `=` | `:=` | `::=` | `<-` | /:\n/ | `: `  # with `: `, retrieve markers mustn't be followed by a blank!
         OR         = `|` | `/` !regex_heuristics
-        AND        =  `,` | ``
+        AND        =  `,` | /(?![;)}\]|]|->|$)/  # without comma only if something follows
         ENDL       = `;` | ``
 
         RNG_BRACE  = :BRACE_SIGN
@@ -341,7 +341,7 @@ class HeuristicEBNFGrammar(Grammar):
     BRACE_SIGN = Capture(SmartRE(f'(?P<:Text>\\{{|\\()', '`{`|`(`'), zero_length_warning=False)
     RNG_BRACE = Capture(Retrieve(BRACE_SIGN), zero_length_warning=True)
     ENDL = Capture(SmartRE(f'(?P<:Text>;|)', '`;`|``'), zero_length_warning=False)
-    AND = Capture(SmartRE(f'(?P<:Text>,|)', '`,`|``'), zero_length_warning=False)
+    AND = Capture(SmartRE(f'(?P<:Text>,|(?![;)}}\\]|]|->|$))', '`,`|/(?![;)}\\]|]|->|$)/'), zero_length_warning=False)
     OR = Capture(Alternative(Text("|"), Series(Text("/"), NegativeLookahead(regex_heuristics))),
                  zero_length_warning=True)
     _DEF = SmartRE(f'(?P<:Text>=|:=|::=|<\\-)|(:\\n)|(?P<:Text>:\\ )', '`=`|`:=`|`::=`|`<-`|/:\\n/|`: `')
diff --git a/examples/FlexibleEBNF/FlexibleEBNF.ebnf b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
index 7099013..452f165 100644
--- a/examples/FlexibleEBNF/FlexibleEBNF.ebnf
+++ b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
@@ -172,7 +172,7 @@ EOF = !/./ [:?ENDL] [:?DEF] [:?OR] [:?AND]      # [:?DEF], [:?OR], ... clear sta
 DEF        = _DEF
 _DEF       = `=` | `:=` | `::=` | `<-` | /:\n/ | `: `  # with `: `, retrieve markers mustn't be followed by a blank!
 OR         = `|` | `/` !regex_heuristics
-AND        =  `,` | ``
+AND        =  `,` | /(?![;)}\]|]|->|$)/  # without comma only if something follows
 ENDL       = `;` | ``
 
 RNG_BRACE  = :BRACE_SIGN
diff --git a/examples/FlexibleEBNF/FlexibleEBNFParser.py b/examples/FlexibleEBNF/FlexibleEBNFParser.py
index 7599815..db3ade6 100755
--- a/examples/FlexibleEBNF/FlexibleEBNFParser.py
+++ b/examples/FlexibleEBNF/FlexibleEBNFParser.py
@@ -137,7 +137,7 @@ class FlexibleEBNFGrammar(Grammar):
     BRACE_SIGN = Capture(SmartRE(f'(?P<:Text>\\{{|\\()', '`{`|`(`'), zero_length_warning=False)
     RNG_BRACE = Capture(Retrieve(BRACE_SIGN), zero_length_warning=True)
     ENDL = Capture(SmartRE(f'(?P<:Text>;|)', '`;`|``'), zero_length_warning=False)
-    AND = Capture(SmartRE(f'(?P<:Text>,|)', '`,`|``'), zero_length_warning=False)
+    AND = Capture(SmartRE(f'(?P<:Text>,|(?![;)}}\\]|]|->|$))', '`,`|/(?![;)}\\]|]|->|$)/'), zero_length_warning=False)
     OR = Capture(Alternative(Text("|"), Series(Text("/"), NegativeLookahead(regex_heuristics))), zero_length_warning=True)
     _DEF = SmartRE(f'(?P<:Text>=|:=|::=|<\\-)|(:\\n)|(?P<:Text>:\\ )', '`=`|`:=`|`::=`|`<-`|/:\\n/|`: `')
     DEF = Capture(Synonym(_DEF), zero_length_warning=False)
-- 
2.43.0


From 41fa42269623a35f58da8f4aea6a996b5f5a45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 066/137] fix: generated code depended on the hash seed (order
 of disposable symbols and flags)

---
 DHParser/ebnf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 7182175..77d8c69 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1470,7 +1470,7 @@ class EBNFDirectives:
         for s in frozenset(symbols):
             if re.match(self.disposable, s):  symbols.remove(s)
         if symbols:
-            pattern = '$|'.join(symbols) + '$'
+            pattern = '$|'.join(sorted(symbols)) + '$'
             if self.disposable != NEVER_MATCH_PATTERN:
                 self.disposable = f'(?:{self.disposable})|(?:{pattern})'
             else:
@@ -1858,7 +1858,7 @@ class EBNFCompiler(Compiler):
         if flags:
             if 'i' in flags:
                 rx = rx.replace('(?P<:Text>', '(?P<:IgnoreCase>')
-            rx = "(?%s)%s" % ("".join(flags), rx)
+            rx = "(?%s)%s" % ("".join(sorted(flags)), rx)
         try:
             test_rx = RX_NAMED_GROUPS.sub('(', rx) if smartRE else rx
             re.compile(test_rx)
-- 
2.43.0


From 8e72d5edac3ccc180ff8f47d3678e88572602545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 067/137] fix: @ignorecase was lost when literals are optimized

---
 DHParser/ebnf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 77d8c69..58288ea 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3592,6 +3592,7 @@ class EBNFCompiler(Compiler):
         if 'literal' in self.directives.optimizations and (left and right):
             q = content[0]
             literal = self.literal_rx(content[1:-1], left, right, escape_braces=True)
+            literal = self.check_rx(node, literal, smartRE=True)
             rxp = ''.join(['fr', q, literal.replace(q, '\\' + q), q])
             rxp = wrap_str_literal(rxp, 80, 12 if self.drop_on(DROP_STRINGS) else 7)
             if content[1:-1].find(q) >= 0:
-- 
2.43.0


From 2faaa35e368f55def56ca6d72aa20d44d5c07a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 068/137] fix: literal next to whitespace was captured twice in
 optimized definitions

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 58288ea..f537756 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3154,7 +3154,8 @@ class EBNFCompiler(Compiler):
                                         'range_chain') for child in node.children)
         for nd in node.children:
             rxp, repr_str = self.compile(nd, self.find_smartRE_method)
-            if undrop and nd.name != "whitespace" and rxp[:3] == "(?:":  rxp = "(" + rxp[3:]
+            if undrop and nd.name != "whitespace" and rxp[:3] == "(?:" and rxp.find('(?P<') < 0:
+                rxp = "(" + rxp[3:]
             rxps.append(rxp)
             rep_strs.append(repr_str)
         if self.directives.reduction >= REDUCTION['merge_leaves'] \
-- 
2.43.0


From e4f6c7487c9d08d5d8c3694f60cbb21eca7df62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:40 +0000
Subject: [PATCH 069/137] fix: comment and whitespace regular expressions with
 quotation marks, flags or line breaks compiled to broken code

---
 DHParser/ebnf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index f537756..597d351 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2137,7 +2137,7 @@ class EBNFCompiler(Compiler):
             definitions.append((EBNFCompiler.RAW_WS_PARSER_KEYWORD,
                                 "Whitespace(%s)" % EBNFCompiler.RAW_WS_KEYWORD))
         definitions.append((EBNFCompiler.RAW_WS_KEYWORD,
-                            "r'{}'".format(self.directives.whitespace)))
+                            self.raw_str_literal(self.directives.whitespace)))
         comment_rx = ("re.compile(%s)" % EBNFCompiler.COMMENT_KEYWORD) \
             if self.directives.comment else "RX_NEVER_MATCH"
         if EBNFCompiler.COMMENT_PARSER_KEYWORD in self.required_keywords:
@@ -2145,7 +2145,7 @@ class EBNFCompiler(Compiler):
                                 "RegExp(%s)" % EBNFCompiler.COMMENT_RX_KEYWORD))
         definitions.append((EBNFCompiler.COMMENT_RX_KEYWORD, comment_rx))
         definitions.append((EBNFCompiler.COMMENT_KEYWORD,
-                            "r'{}'".format(self.directives.comment)))
+                            self.raw_str_literal(self.directives.comment)))
 
         # prepare and add resume-rules
 
@@ -2592,6 +2592,11 @@ class EBNFCompiler(Compiler):
                         f'Expected: {VALID_DIRECTIVES[key]}')
             else:
                 value = self.extract_regex(node.children[1])
+                # this will become a part of a larger regular expression where
+                # global flags are not allowed
+                value = re.sub(r'^\(\?(\w+)\)((?:.|\n)*)$',
+                               lambda m: '(?%s:%s%s)' % (*m.groups(), '\n' * ('x' in m.group(1))),
+                               value)
                 if key == 'whitespace':
                     if not re.match(value, ''):
                         self.tree.new_error(node, f"Implicit whitespace should "
-- 
2.43.0


From f96305fe590ab2f22efeffd1214b0dbfda8a7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:49 +0000
Subject: [PATCH 070/137] fix: optional dropped literals were optimized to a
 wrong regular expression

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 597d351..3b6f699 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3352,7 +3352,8 @@ class EBNFCompiler(Compiler):
         rxp, rep_str = self.compile(node.children[0], self.find_smartRE_method)
         if rxp[:3] == '(?:':
             stripped_re = rxp[3:-1]
-            if not self.requires_group(node.children[0], stripped_re):
+            if stripped_re[:1] in ('(', '[') \
+                    and not self.requires_group(node.children[0], stripped_re):
                 rxp = stripped_re
         return ''.join(['(?:', rxp, '?)']), ''.join(['[', rep_str, ']'])
 
-- 
2.43.0


From 33ebe232c5a7c34112e4ed85ba3c2e425732f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:54 +0000
Subject: [PATCH 071/137] fix: static analysis crashed on grammars with errors
 that had already been reported

---
 DHParser/ebnf.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 3b6f699..0180009 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2438,13 +2438,18 @@ class EBNFCompiler(Compiler):
                     python_src = python_src.replace(
                         'static_analysis_pending__ = [True]',
                         'static_analysis_pending__ = []  # type: List[bool]', 1)
-            except (TypeError, AttributeError) as te_ae:
-                if not (errors or self.tree.errors):
-                    raise te_ae  # not merely a consequntial error of another reported error
-            except SyntaxError as se:
-                src_lines = probe_src.split('\n')
-                se.msg += f' "{src_lines[se.lineno - 1]}" '
-                raise se
+            except NameError as ne:
+                # undefined symbols in the grammar have already been caught and reported
+                # (In Python3.7/3.8/3.9 NameError does not have a name attribute.)
+                if getattr(ne, 'name', None) not in self.symbols \
+                        and hasattr(ne, 'name') and not has_errors(self.tree.errors, ERROR):
+                    raise ne
+            except Exception as e:
+                if not has_errors(self.tree.errors, ERROR):
+                    if isinstance(e, SyntaxError):
+                        src_lines = probe_src.split('\n')
+                        e.msg += f' "{src_lines[e.lineno - 1]}" '
+                    raise e  # not merely a consequential error of another reported error
             for sym, parser, err in errors:
                 psym = parser.symbol
                 for dic, key in [(self.rules, sym), (self.rules, psym), (self.macros, psym)]:
-- 
2.43.0


From 3e36da97fabea3b65a6e346dce1a3a3fb2113151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 072/137] fix: check of lookbehind arguments does not terminate
 on cyclic synonyms

---
 DHParser/ebnf.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 0180009..647af5b 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3297,14 +3297,16 @@ class EBNFCompiler(Compiler):
                 nd = node
                 if len(nd.children) >= 1:
                     nd = nd.children[0]
-                while nd.name == "symbol":
+                visited = set()
+                while nd.name == "symbol" and nd.content not in visited:
+                    visited.add(nd.content)
                     symlist = self.rules.get(nd.content, [])
-                    if len(symlist) == 2:
-                        nd = symlist[1]
-                    else:
-                        if len(symlist) == 1:
-                            nd = symlist[0].children[1]
-                        break
+                    if not symlist:
+                        return  # undefined symbols are reported elsewhere
+                    definition = symlist[0]
+                    i = 2 if definition.children[0].name == "modifier" else 1
+                    if len(definition.children) <= i:  break
+                    nd = definition.children[i]
                 # content = nd.content
                 if nd.name not in ("regexp", "char_ranges"):
                     self.tree.new_error(node, "Lookbehind-parser can only be used with RegExp"
-- 
2.43.0


From e8b056b54fd6f75d79a6b18ec9a1b36b8ddbb20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 073/137] fix: unusable search rules in skip/resume-directives
 are reported as errors

---
 DHParser/ebnf.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 647af5b..ab07ccd 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -258,7 +258,7 @@ from DHParser.error import Error, AMBIGUOUS_ERROR_HANDLING, WARNING, REDECLARED_
     STRUCTURAL_ERROR_IN_AST, SYMBOL_NAME_IS_PYTHON_KEYWORD, UNDEFINED_SYMBOL, ERROR, FATAL, \
     WRONG_NUMBER_OF_ARGUMENTS, UNKNOWN_MACRO_ARGUMENT, AMBIGUOUS_RANGE_EXPRESSION_WARNING, \
     UNDEFINED_MACRO, RECURSIVE_MACRO_CALL, UNUSED_MACRO_ARGUMENTS_WARNING, \
-    NAME_SHADOWED_BY_DROP_CLASS_NOTICE, has_errors
+    NAME_SHADOWED_BY_DROP_CLASS_NOTICE, INAPPROPRIATE_SYMBOL_FOR_DIRECTIVE, has_errors
 from DHParser.parse import Parser, Grammar, mixin_comment, mixin_nonempty, Forward, RegExp, SmartRE, \
     Drop, DropFrom, Lookahead, NegativeLookahead, Alternative, Series, Option, ZeroOrMore, OneOrMore, \
     Text, Capture, Retrieve, Pop, optional_last_value, GrammarError, Whitespace, Always, Never, \
@@ -1916,6 +1916,7 @@ class EBNFCompiler(Compiler):
         elif nd.name == 'symbol':
             referred_symbol = nd.content.strip()
             self.referred_otherwise.add(referred_symbol)
+            self.symbols.setdefault(referred_symbol, []).append(nd)
             return unrepr(referred_symbol)
         else:
             # create a parser-based search rule
@@ -1924,14 +1925,16 @@ class EBNFCompiler(Compiler):
             L = len(stub)
             nr = 1
             for rule in self.rules.keys():
-                if rule[:L] == stub:
+                if rule[:L] == stub and rule[L:].strip('_').isdigit():
                     i = int(rule[L:].strip('_'))
                     if i >= nr:  nr = i + 1
             rule = stub + str(nr) + '__'
             self.current_symbols = [node]
             self.rules[rule] = self.current_symbols
             defn = self.compile(nd)
-            assert defn.find("(") >= 0  # synonyms are impossible here
+            if defn.find("(") < 0:  # synonyms are impossible here
+                self.tree.new_error(nd, f'"{nd.content}" cannot be used as {kind}-rule!',
+                                    INAPPROPRIATE_SYMBOL_FOR_DIRECTIVE)
             self.definitions[rule] = defn
             self.referred_otherwise.add(rule)
             return unrepr(rule)
@@ -2425,13 +2428,6 @@ class EBNFCompiler(Compiler):
                 python_src = python_src.replace(
                     'static_analysis_pending__ = [True]',
                     'static_analysis_pending__ = []  # type: List[bool]', 1)
-            except NameError as ne:
-                try:
-                    if ne.name not in self.symbols:
-                        # undefined symbols in the grammar have already been caught and reported
-                        raise ne
-                except AttributeError:
-                    pass  # In Python3.7/3.8/3.9 NameError does not have a name attribute
             except GrammarError as ge:
                 errors = ge.errors
                 if not has_errors([e.error for e in errors], ERROR):
-- 
2.43.0


From a6920c4be73b65440a357aa9f4f54633936470a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 074/137] fix: malformed regular expression in @hide-directive
 is reported

---
 DHParser/ebnf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ab07ccd..6e2c3de 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2614,7 +2614,11 @@ class EBNFCompiler(Compiler):
                     self.tree.new_error(node, f'Directive "@{key}" can only have one argument'
                                         ' if specified as regexp and not as a list of symbols.')
                 re_pattern = node.children[1].content
-                if re.match(re_pattern, ''):
+                error_count = len(self.tree.errors)
+                self.check_rx(node, re_pattern)
+                if len(self.tree.errors) > error_count:
+                    pass  # malformed regular expression
+                elif re.match(re_pattern, ''):
                     self.tree.new_error(
                         node, "The regular expression r'%s' matches any symbol, "
                         "which is not allowed!" % re_pattern)
-- 
2.43.0


From 3238520a238bb38b7452c1b2ec329c1a0c177f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 075/137] fix: inapplicable values of @comment and @whitespace
 are reported as errors

---
 DHParser/ebnf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 6e2c3de..fe13aaa 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1872,7 +1872,7 @@ class EBNFCompiler(Compiler):
         value = node.content
         if node.name in ('literal', 'plaintext'):
             assert value
-            assert value[0] + value[-1] in ('""', "''", "``")
+            assert value[0] + value[-1] in ('""', "''", "``", "’’", "´´")
             value = re.escape(value[1:-1])
         else:
             assert node.name == "regexp"""
@@ -2591,8 +2591,14 @@ class EBNFCompiler(Compiler):
                     self.tree.new_error(
                         node, f'Value "{value}" not allowed for directive "{key}". '
                         f'Expected: {VALID_DIRECTIVES[key]}')
+            elif node.children[1].name not in ('regexp', 'literal', 'plaintext'):
+                self.tree.new_error(node, f'Value of directive "{key}" must be a regular '
+                                    f'expression or a literal, not: {node.children[1].content}')
+                return ""
             else:
+                error_count = len(self.tree.errors)
                 value = self.extract_regex(node.children[1])
+                if len(self.tree.errors) > error_count:  return ""  # malformed regular expression
                 # this will become a part of a larger regular expression where
                 # global flags are not allowed
                 value = re.sub(r'^\(\?(\w+)\)((?:.|\n)*)$',
-- 
2.43.0


From 9fe3499de323f3dff2d3cb440ab51d3084bf08ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:47 +0000
Subject: [PATCH 076/137] fix: text between two comments at the end of the
 document was mistaken for whitespace

---
 DHParser/parse.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 7bf23da..72f7ee9 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1268,6 +1268,16 @@ def mixin_nonempty(whitespace: str) -> str:
     return whitespace
 
 
+def matches_rest(regex: str, rest: str) -> bool:
+    """Returns True, if a parser for the regular expression ``regex`` would
+    capture the complete rest of the document. (This is stricter than
+    ``re.fullmatch()``, because the latter stretches non-greedy quantifiers
+    until the regular expression fits, e.g. from the beginning of the first
+    until the end of the last comment.)"""
+    m = re.match(regex, rest)
+    return m is not None and m.end() == len(rest)
+
+
 class AnalysisError(NamedTuple):
     symbol: str
     parser: Parser
@@ -2102,8 +2112,8 @@ class Grammar:
 
             if location < L and (complete_match is True
                     or (complete_match is not False and
-                        re.fullmatch(getattr(self, complete_match),
-                                     self.text__[location:]) is None)):
+                        not matches_rest(getattr(self, complete_match),
+                                         self.text__[location:]))):
                 rest = self.document__[location:]
                 match_end = location  # the tree can end earlier, if content has been dropped
                 fwd = rest.find("\n") + 1 or len(rest)
-- 
2.43.0


From f89c15534b4b486b6a058d81464a464a4a2eacb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 077/137] fix: negative error position for grammars that match
 without consuming text

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 72f7ee9..999b083 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2119,7 +2119,7 @@ class Grammar:
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
                 if result is None or (result.name == ZOMBIE_TAG and result.strlen() == 0):
-                    err_pos = self.ff_pos__
+                    err_pos = max(self.ff_pos__, 0)  # ff_pos__ is -1, if no parser failed
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
                     if associated_symbol != self.ff_parser__:
                         err_pname = associated_symbol.pname + '->' + str(self.ff_parser__)
-- 
2.43.0


From 6d74aa70fc82ec4ef913918a260e35d3fab630ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 078/137] fix: illegal values of @drop-directive led to
 malformed regular expression

---
 DHParser/ebnf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index fe13aaa..6b25f64 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2676,7 +2676,8 @@ class EBNFCompiler(Compiler):
                             'name' % (content, str(DROP_VALUES), self.directives.disposable))
             if unmatched:
                 self.directives[key].add(content)
-                self.directives.add_to_disposable_symbols(unmatched)
+                self.directives.add_to_disposable_symbols(
+                    [name for name in unmatched if re.fullmatch(r'\w+', name)])
                 # self.add_to_disposable_regexp('$|'.join(unmatched) + '$')
 
         elif key in ('reduction', 'tree_reduction'):
-- 
2.43.0


From 2b3fc9e675a632bbfae7c4f8fa687a34eca08561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:23 +0000
Subject: [PATCH 079/137] fix: declaration of preprocessor-tokens that bear the
 name of a directive or symbol led to internal errors

---
 DHParser/ebnf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 6b25f64..ebf381d 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2114,7 +2114,7 @@ class EBNFCompiler(Compiler):
         if self.variables:
             for i, (symbol, code) in enumerate(definitions):
                 if symbol in self.variables:
-                    if set(self.symbols[symbol]) - set(self.variables[symbol]):
+                    if set(self.symbols.get(symbol, [])) - set(self.variables[symbol]):
                         code = f'Capture({code}, zero_length_warning=True)'
                     else:
                         code = f'Capture({code}, zero_length_warning=False)'
@@ -2564,7 +2564,6 @@ class EBNFCompiler(Compiler):
                 child.result = escape_ctrl_chars(child.content)
 
         key = node.children[0].content
-        assert key not in self.directives.tokens
 
         if key not in EBNFDirectives.REPEATABLE_DIRECTIVES and not key.endswith('_error') \
                 and key in self.defined_directives:
-- 
2.43.0


From f958781f9b092006bb12e76f00f392023a0b9644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 080/137] fix: lookbehind-operator on a regular expression with
 named groups

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 999b083..175daec 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4779,6 +4779,8 @@ class Lookbehind(FlowParser):
         self.text = ''  # type: str
         if isinstance(p, RegExp):
             self.regexp = LazyPattern(self, cast(RegExp, p).regexp.pattern)
+        elif isinstance(p, SmartRE):  # regular expression with named groups
+            self.regexp = LazyPattern(self, cast(SmartRE, p).pattern)
         else:  # p is of type Text
             assert isinstance(p, Text)
             self.text = cast(Text, p).text
-- 
2.43.0


From cfe569ec4b338cf1a1e68669741e2489ff8bd19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 081/137] fix: recursive symbol as skip- or resume-rule

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 175daec..a5b64c3 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1835,7 +1835,8 @@ class Grammar:
         for l in resume_lists:
             for i in range(len(l)):
                 if isinstance(l[i], Parser):
-                    p = self[l[i].pname]  # deep-copy and initialize with grammar-object
+                    name = l[i].parser.pname if isinstance(l[i], Forward) else l[i].pname
+                    p = self[name]  # deep-copy and initialize with grammar-object
                     l[i] = p
                     if p not in root_connected:
                         self.unconnected_parsers__.add(p)
-- 
2.43.0


From 6128acb0495cec8a1fe1f9fec280954c8ea5ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 082/137] fix: typographic quotes around error-messages led to
 malformed Python-code

---
 DHParser/ebnf.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ebf381d..e6204cc 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2758,12 +2758,17 @@ class EBNFCompiler(Compiler):
                 self.tree.new_error(
                     node, 'Directive "%s" requires message string or a pair ' % key
                     + '(regular expression or search string, message string) as argument!')
+
+            def py_str(nd: Node) -> unrepr:
+                content = nd.content
+                return unrepr(repr(content[1:-1]) if content[:1] in ('’', '´', '`') else content)
+
             if len(node.children) == 2:
-                error_msgs.append(('', unrepr(node.children[1].content)))
+                error_msgs.append(('', py_str(node.children[1])))
             elif len(node.children) == 3:
                 rule = self.make_search_rule(node, node.children[1], 'error')
-                error_msgs.append((rule if rule else unrepr(node.children[1].content),
-                                   unrepr(node.children[2].content)))
+                error_msgs.append((rule if rule else py_str(node.children[1]),
+                                   py_str(node.children[2])))
             else:
                 self.tree.new_error(node, 'Directive "%s" allows at most two parameters' % key)
             self.directives.error[symbol] = error_msgs
-- 
2.43.0


From 5cee79a0747b6d0571c9eb7255f9d2ba3dc43571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 083/137] fix: retrieving the value of a recursive symbol is
 reported as error

---
 DHParser/ebnf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index e6204cc..78ce629 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2120,6 +2120,10 @@ class EBNFCompiler(Compiler):
                         code = f'Capture({code}, zero_length_warning=False)'
                     definitions[i] = (symbol, code)
                     self.definitions[symbol] = code
+                    if symbol in self.forward:
+                        self.tree.new_error(
+                            self.variables[symbol][0], f'Values of recursive symbols like '
+                            f'"{symbol}" cannot be captured and retrieved!')
 
         # add special fields for Grammar class
 
-- 
2.43.0


From 3c0fbbc98c01b42ffe3f6010897bdc8a1fe3be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 084/137] fix: PEG-expressions as search rules for
 error-messages are reported as errors

---
 DHParser/ebnf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 78ce629..eb4edbd 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -1913,6 +1913,11 @@ class EBNFCompiler(Compiler):
             proc_name = nd.content
             self.py_symbols.add(proc_name)
             return unrepr(proc_name)
+        elif kind == 'error':
+            self.tree.new_error(nd, 'Only strings, regular expressions and procedures can be used '
+                                f'as search rules for error messages, not: {nd.content}',
+                                INAPPROPRIATE_SYMBOL_FOR_DIRECTIVE)
+            return ""
         elif nd.name == 'symbol':
             referred_symbol = nd.content.strip()
             self.referred_otherwise.add(referred_symbol)
-- 
2.43.0


From e06f58bb2e0e586fbd35ba43232f8153ceaf1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:53 +0000
Subject: [PATCH 085/137] fix: missing argument of @Error-parser is reported

---
 DHParser/ebnf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index eb4edbd..ab5779d 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -3767,6 +3767,9 @@ class EBNFCompiler(Compiler):
             self.py_symbols.add(name)
         if name == 'Error':
             name = 'ERR'
+            if 'argument' not in node:
+                self.tree.new_error(node, 'Error-message missing in: ' + node.content)
+                return f'{self.P["Custom"]}({name}(""))'
             argument = self.compile(node['argument'])
             return f'{self.P["Custom"]}({name}({argument}))'
         elif 'argument' in node:
-- 
2.43.0


From 61a98ff7b9b028d2b81dbb041095ca15735af786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 086/137] fix: retrieving the value of a dropped symbol is
 reported as error

---
 DHParser/ebnf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index ab5779d..3e2761e 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -2125,6 +2125,10 @@ class EBNFCompiler(Compiler):
                         code = f'Capture({code}, zero_length_warning=False)'
                     definitions[i] = (symbol, code)
                     self.definitions[symbol] = code
+                    if code.startswith(f'Capture({self.P["Drop"]}('):
+                        self.tree.new_error(
+                            self.variables[symbol][0], f'Values of dropped symbols like '
+                            f'"{symbol}" cannot be captured and retrieved!')
                     if symbol in self.forward:
                         self.tree.new_error(
                             self.variables[symbol][0], f'Values of recursive symbols like '
-- 
2.43.0


From 511cf3f015fb43832021bacef393f0c94fdf26fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:08 +0000
Subject: [PATCH 087/137] restore the example grammars

---
 examples/FixedEBNF/FixedEBNF.ebnf           | 4 ++--
 examples/FixedEBNF/FixedEBNFParser.py       | 4 ++--
 examples/FlexibleEBNF/FlexibleEBNF.ebnf     | 6 +++---
 examples/FlexibleEBNF/FlexibleEBNFParser.py | 6 +++---
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/examples/FixedEBNF/FixedEBNF.ebnf b/examples/FixedEBNF/FixedEBNF.ebnf
index 586264d..af1c3b1 100644
--- a/examples/FixedEBNF/FixedEBNF.ebnf
+++ b/examples/FixedEBNF/FixedEBNF.ebnf
@@ -110,8 +110,8 @@ option     = !char_range "[" §expression "]" | element "?"
 counted    = countable range | countable TIMES~ multiplier | multiplier TIMES~ §countable
 
 range      = RNG_OPEN~ multiplier [ RNG_DELIM~ multiplier ] RNG_CLOSE~
-no_range   = !multiplier | &(multiplier TIMES)
-multiplier = /(?!0x)\d+/~
+no_range   = !multiplier | &multiplier TIMES   # should that be &(multiplier TIMES)??
+multiplier = /\d+/~
 
 
 #: leaf-elements
diff --git a/examples/FixedEBNF/FixedEBNFParser.py b/examples/FixedEBNF/FixedEBNFParser.py
index 0e3d48e..9353840 100755
--- a/examples/FixedEBNF/FixedEBNFParser.py
+++ b/examples/FixedEBNF/FixedEBNFParser.py
@@ -116,7 +116,7 @@ class FixedEBNFGrammar(Grammar):
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
+    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])', '/[^\\n\\[\\]\\\\]/|/\\\\[nrtfv`´\'"(){}\\[\\]\\/\\\\]/')
@@ -132,7 +132,7 @@ class FixedEBNFGrammar(Grammar):
     symbol = Series(SYM_REGEX, dwsp__)
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument), Series(Text(")"), dwsp__), mandatory=3)
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, TIMES))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), TIMES)))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression, ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_OPEN, dwsp__, multiplier, Option(Series(RNG_DELIM, dwsp__, multiplier)), RNG_CLOSE, dwsp__)
     counted = Alternative(Series(countable, range), Series(countable, TIMES, dwsp__, multiplier), Series(multiplier, TIMES, dwsp__, countable, mandatory=3))
diff --git a/examples/FlexibleEBNF/FlexibleEBNF.ebnf b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
index 452f165..9b097be 100644
--- a/examples/FlexibleEBNF/FlexibleEBNF.ebnf
+++ b/examples/FlexibleEBNF/FlexibleEBNF.ebnf
@@ -127,8 +127,8 @@ option     = !char_range "[" §expression "]" | element "?"
 counted    = countable range | countable :TIMES~ multiplier | multiplier :TIMES~ §countable
 
 range      = RNG_BRACE~ multiplier [ :RNG_DELIM~ multiplier ] ::RNG_BRACE~
-no_range   = !multiplier | &(multiplier :TIMES)
-multiplier = /(?!0x)\d+/~
+no_range   = !multiplier | &multiplier :TIMES
+multiplier = /\d+/~
 
 
 #: leaf-elements
@@ -172,7 +172,7 @@ EOF = !/./ [:?ENDL] [:?DEF] [:?OR] [:?AND]      # [:?DEF], [:?OR], ... clear sta
 DEF        = _DEF
 _DEF       = `=` | `:=` | `::=` | `<-` | /:\n/ | `: `  # with `: `, retrieve markers mustn't be followed by a blank!
 OR         = `|` | `/` !regex_heuristics
-AND        =  `,` | /(?![;)}\]|]|->|$)/  # without comma only if something follows
+AND        =  `,` | ``
 ENDL       = `;` | ``
 
 RNG_BRACE  = :BRACE_SIGN
diff --git a/examples/FlexibleEBNF/FlexibleEBNFParser.py b/examples/FlexibleEBNF/FlexibleEBNFParser.py
index db3ade6..04fdf38 100755
--- a/examples/FlexibleEBNF/FlexibleEBNFParser.py
+++ b/examples/FlexibleEBNF/FlexibleEBNFParser.py
@@ -137,14 +137,14 @@ class FlexibleEBNFGrammar(Grammar):
     BRACE_SIGN = Capture(SmartRE(f'(?P<:Text>\\{{|\\()', '`{`|`(`'), zero_length_warning=False)
     RNG_BRACE = Capture(Retrieve(BRACE_SIGN), zero_length_warning=True)
     ENDL = Capture(SmartRE(f'(?P<:Text>;|)', '`;`|``'), zero_length_warning=False)
-    AND = Capture(SmartRE(f'(?P<:Text>,|(?![;)}}\\]|]|->|$))', '`,`|/(?![;)}\\]|]|->|$)/'), zero_length_warning=False)
+    AND = Capture(SmartRE(f'(?P<:Text>,|)', '`,`|``'), zero_length_warning=False)
     OR = Capture(Alternative(Text("|"), Series(Text("/"), NegativeLookahead(regex_heuristics))), zero_length_warning=True)
     _DEF = SmartRE(f'(?P<:Text>=|:=|::=|<\\-)|(:\\n)|(?P<:Text>:\\ )', '`=`|`:=`|`::=`|`<-`|/:\\n/|`: `')
     DEF = Capture(Synonym(_DEF), zero_length_warning=False)
     EOF = Drop(Series(SmartRE(f'(?!.)', '!/./'), Option(Pop(ENDL, match_func=optional_last_value)), Option(Pop(DEF, match_func=optional_last_value)), Option(Pop(OR, match_func=optional_last_value)), Option(Pop(AND, match_func=optional_last_value)), Option(Pop(RNG_DELIM, match_func=optional_last_value)), Option(Pop(BRACE_SIGN, match_func=optional_last_value)), Option(Pop(CH_LEADIN, match_func=optional_last_value)), Option(Pop(TIMES, match_func=optional_last_value)), Option(Pop(RE_LEADIN, match_func=optional_last_value)), Option(Pop(RE_LEADOUT, match_func=optional_last_value))))
     name = Synonym(SYM_REGEX)
     placeholder = Series(Series(Text("$"), dwsp__), name, NegativeLookahead(Text("(")), dwsp__)
-    multiplier = SmartRE(f'((?!0x)\\d+)(?:{WSP_RE__})', '/(?!0x)\\d+/ ~')
+    multiplier = SmartRE(f'(\\d+)(?:{WSP_RE__})', '/\\d+/ ~')
     whitespace = SmartRE(f'(~)(?:{WSP_RE__})', '/~/ ~')
     any_char = Series(Text("."), dwsp__)
     free_char = SmartRE(f'([^\\n\\[\\]\\\\]|\\\\[nrtfv`´\'"(){{}}\\[\\]/\\\\])', '/[^\\n\\[\\]\\\\]/|/\\\\[nrtfv`´\'"(){}\\[\\]\\/\\\\]/')
@@ -159,7 +159,7 @@ class FlexibleEBNFGrammar(Grammar):
     symbol = Series(SYM_REGEX, dwsp__)
     argument = Alternative(literal, Series(name, dwsp__))
     parser = Series(Series(Text("@"), dwsp__), name, Series(Text("("), dwsp__), Option(argument), Series(Text(")"), dwsp__))
-    no_range = Drop(Alternative(NegativeLookahead(multiplier), Lookahead(Series(multiplier, Retrieve(TIMES)))))
+    no_range = Drop(Alternative(NegativeLookahead(multiplier), Series(Lookahead(multiplier), Retrieve(TIMES))))
     macro = Series(Series(Text("$"), dwsp__), name, Series(Text("("), dwsp__), no_range, expression, ZeroOrMore(Series(Series(Text(","), dwsp__), no_range, expression)), Series(Text(")"), dwsp__))
     range = Series(RNG_BRACE, dwsp__, multiplier, Option(Series(Retrieve(RNG_DELIM), dwsp__, multiplier)), Pop(RNG_BRACE, match_func=matching_bracket), dwsp__)
     counted = Alternative(Series(countable, range), Series(countable, Retrieve(TIMES), dwsp__, multiplier), Series(multiplier, Retrieve(TIMES), dwsp__, countable, mandatory=3))
-- 
2.43.0


From d7d465ddd2e267a710dd870f8cb5aea241ba80fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 088/137] fix: circular includes were not noticed, if the same
 file is referred to by different paths

---
 DHParser/preprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3d72da5..cb0a321 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -492,9 +492,10 @@ def generate_include_map(original_name: str,
         map = SourceMap(source_name, [0], [0], [source_name], {source_name: source_text})
         result = []
 
-        if source_name in file_names:
+        file_id = os.path.abspath(source_name)  # the same file can be referred to by different paths
+        if file_id in file_names:
             raise ValueError(f'Circular include of {source_name} detected!')
-        file_names.add(source_name)
+        file_names.add(file_id)
 
         dirname = os.path.dirname(source_name)
         original_pointer = 0
@@ -541,7 +542,7 @@ def generate_include_map(original_name: str,
             map.positions.append(map.positions[-1] + len(rest))
             map.offsets.append(original_offset)
             map.file_names.append(source_name)
-        file_names.remove(source_name)
+        file_names.remove(file_id)
         # map.file_offsets = [-offset for offset in map.offsets]  # only for debugging!
         return map, ''.join(result)
 
-- 
2.43.0


From e49b31bc70527404d2e3575a30757d139f9857ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 089/137] fix: end of a tokenized text that ends with a token
 could not be mapped

---
 DHParser/preprocess.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index cb0a321..f0a405b 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -370,7 +370,6 @@ def tokenized_to_original_mapping(tokenized_text: str,
     positions, offsets = [0], [0]
     o = 0
     i = tokenized_text.find(BEGIN_TOKEN)
-    e = -2
     while i >= 0:
         d = tokenized_text.find(TOKEN_DELIMITER, i)
         e = tokenized_text.find(END_TOKEN, i)
@@ -379,9 +378,8 @@ def tokenized_to_original_mapping(tokenized_text: str,
         positions.extend([d + 1, e + 1])
         offsets.extend([o + 1, o])
         i = tokenized_text.find(BEGIN_TOKEN, e + 1)
-    if e + 1 < len(tokenized_text):
-        positions.append(len(tokenized_text) + 1)
-        offsets.append(offsets[-1])
+    positions.append(len(tokenized_text) + 1)
+    offsets.append(offsets[-1])
 
     # specific condition for preprocessor tokens
     assert all(offsets[i] > offsets[i + 1] for i in range(len(offsets) - 2))
-- 
2.43.0


From a07899f5a7a00d1308bc01c1ac2d42c1c45f2a54 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:35:45 +0000
Subject: [PATCH 090/137] fix: parsers for preprocessor-tokens matched tokens
 that merely start with the same name and could not be assigned to a symbol

---
 DHParser/parse.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index a5b64c3..39c5e96 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -54,7 +54,7 @@ from DHParser.error import Error, ErrorCode, MANDATORY_CONTINUATION, \
     INFINITE_LOOP_WARNING, REDUNDANT_PARSER_WARNING, PARSER_STOPPED_BEFORE_END_WARNING, \
     has_errors, is_error
 from DHParser.log import CallItem, HistoryRecord
-from DHParser.preprocess import BEGIN_TOKEN, END_TOKEN, RX_TOKEN_NAME, SourceMapFunc
+from DHParser.preprocess import BEGIN_TOKEN, TOKEN_DELIMITER, END_TOKEN, RX_TOKEN_NAME, SourceMapFunc
 from DHParser.stringview import StringView, EMPTY_STRING_VIEW
 from DHParser.nodetree import Node, RootNode, WHITESPACE_PTYPE, \
     KEEP_COMMENTS_PTYPE, TOKEN_PTYPE, MIXED_CONTENT_TEXT_PTYPE, ZOMBIE_TAG, EMPTY_NODE, \
@@ -2599,12 +2599,11 @@ class PreprocessorToken(LeafParser):
         assert token and token.isupper()
         assert RX_TOKEN_NAME.match(token)
         super().__init__()
-        self.pname = token
-        if token:
-            self.disposable = False
+        self.token = token
+        self.disposable = False
 
     def __deepcopy__(self, memo):
-        duplicate = self.__class__(self.pname)
+        duplicate = self.__class__(self.token)
         copy_parser_base_attrs(self, duplicate)
         return duplicate
 
@@ -2628,17 +2627,17 @@ class PreprocessorToken(LeafParser):
                     '(Most likely due to a preprocessor bug!)')
                 return node, location + 2
             elif text.find(BEGIN_TOKEN, 1, end) >= 0:
-                node = Node(self.node_name, text[len(self.pname) + 1:end])
+                node = Node(self.node_name, text[len(self.token) + 1:end])
                 self.grammar.tree__.new_error(
                     node,
                     'Preprocessor-tokens must not be nested or contain '
                     'BEGIN_TOKEN delimiter as part of their argument. '
                     '(Most likely due to a preprocessor bug!)')
                 return node, location + end
-            if text[1:len(self.pname) + 1] == self.pname:
+            if text[1:len(self.token) + 2] == self.token + TOKEN_DELIMITER:
                 if self.drop_content:
                     return EMPTY_NODE, location + end + 1
-                return Node(self.node_name, text[len(self.pname) + 2:end], True), location + end + 1
+                return Node(self.node_name, text[len(self.token) + 2:end], True), location + end + 1
         return None, location
 
 
-- 
2.43.0


From 4afe47ec3730c28cac01fcb5f2463d5dade2baf0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 091/137] fix: documents that consist only of whitespace were
 accepted by parsers that do not match them

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 39c5e96..f9663d0 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2113,8 +2113,9 @@ class Grammar:
 
             if location < L and (complete_match is True
                     or (complete_match is not False and
-                        not matches_rest(getattr(self, complete_match),
-                                         self.text__[location:]))):
+                        ((result is None and not stitches)  # nothing has been matched at all
+                         or not matches_rest(getattr(self, complete_match),
+                                             self.text__[location:])))):
                 rest = self.document__[location:]
                 match_end = location  # the tree can end earlier, if content has been dropped
                 fwd = rest.find("\n") + 1 or len(rest)
-- 
2.43.0


From 33e50771714064d1bb669644b632168d3360d79e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:55:20 +0000
Subject: [PATCH 092/137] fix: dump_config_data() yields each heading only once
 and escapes percent signs

---
 DHParser/configuration.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..c998e9d 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -520,7 +520,10 @@ def dump_config_data(*key_patterns, use_headings: bool = True) -> str:
         if data:
             results = []
             last_prefix = None
-            for k, v in data.items():
+            def prefix_of(key):  return key[:key.find('.') + 1]
+            # each heading may appear only once
+            prefixes = list(dict.fromkeys(prefix_of(k) for k in data))
+            for k, v in sorted(data.items(), key=lambda kv: prefixes.index(prefix_of(kv[0]))):
                 i = k.find('.')
                 prefix = k[:i + 1]
                 name = k[i + 1:] if use_headings else k
@@ -529,7 +532,9 @@ def dump_config_data(*key_patterns, use_headings: bool = True) -> str:
                     if use_headings:
                         results.append(f'[{prefix[:-1]}]' if prefix else "[DHParser]")
                     last_prefix = prefix
-                results.append(f'{name} = {repr(v)}')
+                value = repr(v)
+                # configparser evaluates percent-signs unless they are doubled
+                results.append(f"{name} = {value.replace('%', '%%') if use_headings else value}")
             if not results[0]:  del results[0]
             results.append('')
             return '\n'.join(results)
-- 
2.43.0


From ff5bfa6f29775c5672727727e6361417904ad6df Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 093/137] fix: a configuration file in the current directory
 has the last word even if given by its name

---
 DHParser/configuration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index c998e9d..1e6c9ee 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -350,7 +350,8 @@ def read_local_config(ini_filename: str) -> List[str]:
         if cfg_filename not in cfg_files and os.path.isfile(cfg_filename):
             cfg_files.append(cfg_filename)
     # finally, add cfg-file from the current working directory
-    if basename not in cfg_files and os.path.isfile(basename):
+    if os.path.isfile(basename):
+        if basename in cfg_files:  cfg_files.remove(basename)
         cfg_files.append(basename)
 
     # Now, read and process all config files in this order
-- 
2.43.0


From 2519a67f216d4a9d36676aabddbb1915ffb03b5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:55:21 +0000
Subject: [PATCH 094/137] fix: get_config_values() respects thread-local values
 that match the additional patterns

---
 DHParser/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 1e6c9ee..c1029fc 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -472,7 +472,7 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
                 cfg_values.update(cfg)
             else:
                 cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
+                                   if fnmatch.fnmatchcase(key, pattern)})
         presets.update(cfg_values)
         cfg.update(presets)
     return presets
-- 
2.43.0


From 074e2b00f039988fa0cd2b80782bb5637f4841e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:55:27 +0000
Subject: [PATCH 095/137] fix: errors in configuration files do not leave the
 presets inaccessible; multicore_pool can be configured

---
 DHParser/configuration.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index c1029fc..8f9de4e 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -265,9 +265,15 @@ def set_preset_value(key: str, value: Any, allow_new_key: bool=False):
     if key == 'multicore_pool':
         raise AssertionError('Preset of "multicore_pool" can only be changed with a '
                               'configuration-file, but not at runtime!')
-    CONFIG_PRESET[key] = value
+    _store_preset(key, value)
+
+
+def _store_preset(key: str, value: Any):
+    global CONFIG_PRESET, PRESETS_CHANGED
+    with get_access_lock():
+        CONFIG_PRESET[key] = value
+        PRESETS_CHANGED = True
     set_config_value(key, value)
-    PRESETS_CHANGED = True
 
 
 def ingest_config_data(config, sources=''):
@@ -279,13 +285,19 @@ def ingest_config_data(config, sources=''):
         try:
             if section.lower() == "dhparser":
                 for variable, value in config[section].items():
-                    set_preset_value(f"{variable}", eval(value))
+                    if variable == 'multicore_pool':
+                        validate_value(variable, eval(value))
+                        _store_preset(variable, eval(value))
+                    else:
+                        set_preset_value(f"{variable}", eval(value))
             else:
                 for variable, value in config[section].items():
                     set_preset_value(f"{section}.{variable}", eval(value),
                                      allow_new_key=True)
         except ValueError as e:
             errors.append(' '.join(e.args))
+        except Exception as e:  # e.g. a TypeError or an error in the expression
+            errors.append(f'{type(e).__name__}: {e}')
     finalize_presets()
     if errors:
         sources = f' files: {sources}'
-- 
2.43.0


From ebfe77f355e0bad9b14dfa9523b2abcbdbe35d1a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:55:27 +0000
Subject: [PATCH 096/137] fix: presets reach processes that have been spawned
 without DHParser's own executors

---
 DHParser/configuration.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 8f9de4e..fb801fe 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -181,6 +181,14 @@ def access_presets():
         import os
         import pickle
         syncfile_path = get_syncfile_path(mp_method)
+        main_pid = CONFIG_PRESET['main_pid']
+        if not main_pid and not os.path.exists(syncfile_path):
+            # the process might have been spawned without DHParser's own executors
+            parent = multiprocessing.parent_process()
+            if parent is not None:
+                main_pid = str(parent.pid)
+                syncfile_path = os.path.join(os.path.dirname(syncfile_path),
+                                             f'DHParser_{main_pid}.cfg')
         f = None
         try:
             f = open(syncfile_path, 'rb')
@@ -189,7 +197,9 @@ def access_presets():
             if  preset['syncfile_path'] != syncfile_path:
                 raise AssertionError('Conflicting syncfile paths %s != %s'
                                      % (preset['syncfile_path'], syncfile_path))
-            CONFIG_PRESET = preset
+            # all modules share the same dictionary
+            CONFIG_PRESET.update(preset)
+            CONFIG_PRESET['main_pid'] = main_pid
         except FileNotFoundError:
             pass
         finally:
-- 
2.43.0


From 996ee647b76b01488e45e2440b391299f613908f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 097/137] fix: reading configuration values does not interfere
 with sessions for changing presets

---
 DHParser/configuration.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index fb801fe..42a7551 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -170,11 +170,21 @@ def access_presets():
     changed preset-values to spawned processes. For an explanation why,
     see: https://docs.python.org/3/library/multiprocessing.html#the-spawn-and-forkserver-start-methods
     """
-    global ACCESSING_PRESETS, CONFIG_PRESET
+    global ACCESSING_PRESETS
+    with get_access_lock():
+        if ACCESSING_PRESETS:
+            raise AssertionError('Presets are already being accessed! '
+                                 'Calls to access_presets() cannot be nested.')
+        _load_presets()
+        ACCESSING_PRESETS = True
+
+
+def _load_presets():
+    """Updates the presets in processes that have been spawned from another
+    process, unless they are being accessed and, thus, up to date, already.
+    (To be called only by the holder of the access-lock.)"""
     if ACCESSING_PRESETS:
-        raise AssertionError('Presets are already being accessed! '
-                             'Calls to access_presets() cannot be nested.')
-    ACCESSING_PRESETS = True
+        return
     import multiprocessing
     mp_method = multiprocessing.get_start_method()
     if mp_method != 'fork' or CONFIG_PRESET['multicore_pool'] == 'InterpreterPool':
@@ -258,7 +268,7 @@ RENAMED_KEYS = {
 
 
 def set_preset_value(key: str, value: Any, allow_new_key: bool=False):
-    global CONFIG_PRESET, ACCESSING_PRESETS, PRESETS_CHANGED
+    global CONFIG_PRESET, ACCESSING_PRESETS
     if not ACCESSING_PRESETS:
         raise AssertionError('Presets must be made accessible with access_presets() first, '
                              'before they can be set!')
@@ -464,12 +474,11 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
         try:
             return cfg[key]
         except KeyError:
-            access_presets()
+            _load_presets()
             # value = get_preset_value(key, default)
             for k, v in CONFIG_PRESET.items():
                 if k not in cfg:
                     cfg[k] = v
-            finalize_presets()
             if default is NO_DEFAULT:
                 value = cfg[key]
             else:
@@ -480,13 +489,13 @@ def get_config_value(key: str, default: Any = NO_DEFAULT) -> Any:
 def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
     """Returns a dictionary of all configuration entries that match
     `key_pattern`."""
-    access_presets()
-    presets = get_preset_values(key_pattern)
-    for pattern in additional_patterns:
-        presets.update(get_preset_values(pattern))
-    finalize_presets()
     import fnmatch
     with get_access_lock():
+        _load_presets()
+        presets = dict()
+        for pattern in (key_pattern, *additional_patterns):
+            presets.update({key: value for key, value in CONFIG_PRESET.items()
+                            if fnmatch.fnmatchcase(key, pattern)})
         cfg = _config_dict()
         cfg_values = dict()
         for pattern in (key_pattern, *additional_patterns):
-- 
2.43.0


From dcd9207f241c08fdf80b07b427073e91316ea609 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 098/137] fix: attribute visitors are called exactly once, and
 their AttributeErrors are not swallowed

---
 DHParser/compile.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index e3c802d..33381e5 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -280,11 +280,9 @@ class Compiler:
         if node.has_attr():
             self.path.append(node)
             for attribute, value in tuple(node.attr.items()):
-                try:
-                    attribute_visitor = self.__getattribute__(self.attr_visitor_name(attribute))
+                attribute_visitor = getattr(self, self.attr_visitor_name(attribute), None)
+                if attribute_visitor not in (None, self.attr_visitor_name):
                     attribute_visitor(node, value)
-                except AttributeError:
-                    pass
             self.path.pop()
 
     def fallback_compiler(self, node: Node) -> Any:
@@ -314,9 +312,7 @@ class Compiler:
                     if nd is not None and nd.name != EMPTY_PTYPE:
                         result.append(nd)
                 node.result = tuple(result)
-        if self.has_attribute_visitors:
-            self.visit_attributes(node)
-        return node
+        return node  # attributes will be visited by self.compile()
 
     def find_compilation_method(self, node: Node) -> CompileMethod:
         def wildcard_or_fallback():
-- 
2.43.0


From c0b7f6a9dbd498517418d9438c469c4a85ab7d20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 099/137] fix: fatal errors of preprocessors are returned
 sorted and with locations

---
 DHParser/compile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index 33381e5..bc22cce 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -45,7 +45,7 @@ from DHParser.preprocess import PreprocessorFunc, gen_neutral_srcmap_func
 from DHParser.nodetree import Node, RootNode, EMPTY_PTYPE, Path
 from DHParser.transform import TransformerFunc
 from DHParser.parse import ParserCallable, Parser
-from DHParser.error import is_error, is_fatal, Error, FATAL, CANCELED, \
+from DHParser.error import add_source_locations, is_error, is_fatal, Error, FATAL, CANCELED, \
     TREE_PROCESSING_CRASH, COMPILER_CRASH, AST_TRANSFORM_CRASH, has_errors
 from DHParser.log import log_parsing_history, log_ST, is_logging
 from DHParser.toolkit import load_if_file, is_filename, re, TypeAlias, \
@@ -498,7 +498,8 @@ def compile_source(source: str,
         _, source_text, source_mapping, errors = preprocessor(original_text, source_name)
 
     if has_errors(errors, FATAL):
-        return CompilationResult(None, errors, None)
+        add_source_locations(errors, source_mapping)
+        return CompilationResult(None, sorted(errors, key=lambda e: e.pos), None)
 
     # parsing
 
-- 
2.43.0


From dd8e6496f867d736160a517c6a103060a02bd4d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:08:27 +0000
Subject: [PATCH 100/137] fix: process_tree() reports a failure even if the
 node has no position or the call itself failed

---
 DHParser/compile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/compile.py b/DHParser/compile.py
index bc22cce..45e8640 100644
--- a/DHParser/compile.py
+++ b/DHParser/compile.py
@@ -615,9 +615,14 @@ def process_tree(tp: CompilerFunc, tree: RootNode) -> Any:
             try:
                 result = tp(tree)
             except Exception as e:
-                node = (getattr(tp, 'path', [tree]) or [tree])[-1]
+                node = tree
+                for nd in reversed(getattr(tp, 'path', [])):
+                    if nd._pos >= 0:  # errors cannot be located at nodes without position
+                        node = nd
+                        break
                 import traceback
                 st = traceback.format_list(traceback.extract_tb(e.__traceback__))
+                i = 1  # in case the exception has been raised by the call itself
                 for i in range(1, len(st)):  # find last call in client-code
                     m = RX_STACKTRACE_FNAME.match(st[-i])
                     if m and os.path.basename(m.group(1)) not in DHPARSER_FILES:
-- 
2.43.0


From a904a3ff76743fa8ffe33c278a8de8daafea6f9d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 101/137] fix: run_pipeline: schedule stages so that sources
 always precede the stages derived from them

---
 DHParser/pipeline.py | 42 +++++++++++-------------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/DHParser/pipeline.py b/DHParser/pipeline.py
index 69d89c8..f8ace53 100644
--- a/DHParser/pipeline.py
+++ b/DHParser/pipeline.py
@@ -243,16 +243,6 @@ def run_pipeline(junctions: Set[Junction],
     """
     import copy
 
-    def cmp_junctions(a, b) -> int:
-        if a[-1] == b[0]:
-            return -1
-        if b[-1] == a[0]:
-            return 1
-        if b[-1] > a[-1]:
-            return -1
-        else:
-            return 0
-
     def verify_stage(given_stage, junction, field, further_info=''):
         if not given_stage:  return  # verification is considered as turned off
         assert field in (0, 2)
@@ -299,29 +289,19 @@ def run_pipeline(junctions: Set[Junction],
     target_stages = {normalize_name(t) for t in target_stages}
     source_stages = {normalize_name(s): source_stages[s] for s in source_stages}
     steps = []
-    targets = target_stages.copy()
-    already_reached = targets | source_stages.keys()
-    while targets:
-        try:
-            j_sequence = [t_to_j[t] for t in targets if t not in source_stages]
-            j_sequence.sort(key=functools.cmp_to_key(cmp_junctions))
-            steps.append(j_sequence)
-        except KeyError as e:
-            raise AssertionError(f"{e.args[0]} is not a valid target.")
-        targets = {j[0] for j in steps[-1] if j[0] not in already_reached}
-        already_reached |= targets
-        for step in steps[:-1]:
-            for j in steps[-1]:
-                try:
-                    step.remove(j)
-                except ValueError:
-                    pass
-    if not (target_stages <= already_reached):
-        raise ValueError(f'Target-stages: {target_stages - already_reached} '
-                         f'cannot be reached with junctions: {junctions}.')
+    scheduled = set(source_stages)
+    for t in sorted(target_stages):
+        chain = []  # type: List[Junction]
+        while t not in scheduled:
+            if t not in t_to_j:
+                raise AssertionError(f"{t} is not a valid target.")
+            scheduled.add(t)
+            chain.append(t_to_j[t])
+            t = chain[-1][0]
+        # any stage must be processed before the stages that are derived from it
+        steps.append(chain[::-1])
     sources = [j[0] for step in steps for j in step]
     disposables = {s for s in set(sources) if s not in target_stages and sources.count(s) <= 1}
-    steps.reverse()
     results: Dict[str, Any] = source_stages.copy()
     errata: Dict[str, List[Error]] = {s: source_stages[s].errors_sorted for s in source_stages}
     cancel = False
-- 
2.43.0


From 68e66edb507fb6ae5f7efc342d93744712468d6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 102/137] fix: instantiate_executor: accept executor-classes
 and factories alike in multithreading mode

---
 DHParser/toolkit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 2218017..a36039d 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -2144,7 +2144,8 @@ def instantiate_executor(allow_parallel: bool,
         if mode == "singlethread":
             return SingleThreadExecutor()
         elif mode == "multithreading" or multiprocessing_broken():
-            if not (issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
+            if not (isinstance(preferred_executor, type)
+                    and issubclass(preferred_executor, concurrent.futures.ThreadPoolExecutor)):
                 return concurrent.futures.ThreadPoolExecutor(*args, **kwargs)
         else:
             assert mode in ("multicore", "multiprocessing"), \
-- 
2.43.0


From c4c4843c9906f5e9e53717eaec79b392ffbaf94b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 103/137] fix: process_file: default serialization is one item,
 not a list of letters

---
 DHParser/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 33912d3..1c113a3 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -842,7 +842,7 @@ def process_file(source: str, out_dir: str,
             path = os.path.join(out_dir, t, '.'.join([dest_name, t]))
             if isinstance(result, Node):
                 slist = serializations.get(t, serializations.get(
-                    '*', get_config_value('default_serialization')))
+                    '*', [get_config_value('default_serialization')]))
                 for s in slist:
                     s = s.lower()  # normalize file-extensions:
                     if s == 'default':  s = get_config_value('default_serialization').lower()
-- 
2.43.0


From a0fc4212d3eb356d0a974a276968a618d7a4d533 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:15:19 +0000
Subject: [PATCH 104/137] fix: process_file: create output directory even if no
 target has been reached

---
 DHParser/dsl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 1c113a3..140502d 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -817,6 +817,7 @@ def process_file(source: str, out_dir: str,
     end_results = {t: r for t, r in results.items() if t in targets}
 
     # create target directories
+    os.makedirs(out_dir, exist_ok=True)
     for t in end_results.keys():
         path = os.path.join(out_dir, t)
         try:  # do not use os.path.exists(), here: RACE CONDITION!!
-- 
2.43.0


From 7492d777bd2f4e02dc8e00c73ace2f74e2d48a78 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 105/137] fix: compile_on_disk: includes are resolved relative
 to the source file

---
 DHParser/dsl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 140502d..d963c22 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -532,7 +532,9 @@ def compile_on_disk(source_file: str,
         is_ebnf_compiler = True
         compiler1.set_grammar_name(compiler_name, source_file)
 
-    result, messages, _ = compile_source(source, sfactory(), parser, tfactory(), compiler1)
+    # prefer the file-name, so that includes are resolved relative to the source-file
+    result, messages, _ = compile_source(source_file if is_filename(source_file) else source,
+                                         sfactory(), parser, tfactory(), compiler1)
 
     if has_errors(messages):
         return messages
-- 
2.43.0


From 3e69580fa4af41a83d5b963ba882b5d581c66d7e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 106/137] fix: files included by a grammar are part of its
 checksum

---
 DHParser/dsl.py  |  5 ++---
 DHParser/ebnf.py | 24 +++++++++++++++++++-----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index d963c22..ce87171 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -33,7 +33,7 @@ import DHParser.ebnf
 from DHParser.compile import Compiler, compile_source, CompilerFactory
 from DHParser.pipeline import full_pipeline, Junction
 from DHParser.configuration import get_config_value, set_config_value
-from DHParser.ebnf import EBNFCompiler, DHPARSER_IMPORTS, \
+from DHParser.ebnf import EBNFCompiler, DHPARSER_IMPORTS, grammar_checksum, \
     get_ebnf_preprocessor, get_ebnf_grammar, get_ebnf_transformer, get_ebnf_compiler
 from DHParser.error import Error, is_error, has_errors, only_errors, canonical_error_strings, \
     ErrorCode, ERROR
@@ -205,8 +205,7 @@ def grammar_changed(grammar_class, grammar_source: str) -> bool:
         True, if the source text of the grammar is different from the
         source from which the grammar class was generated
     """
-    grammar = load_if_file(grammar_source)
-    chksum = md5(grammar, __version__)
+    chksum = grammar_checksum(grammar_source)
     if isinstance(grammar_class, str):
         # grammar_class = load_compiler_suite(grammar_class)[1]
         with open(grammar_class, 'r', encoding='utf8') as f:
diff --git a/DHParser/ebnf.py b/DHParser/ebnf.py
index 3e2761e..699b353 100644
--- a/DHParser/ebnf.py
+++ b/DHParser/ebnf.py
@@ -268,7 +268,7 @@ from DHParser.preprocess import PreprocessorFunc, PreprocessorResult, gen_find_i
     preprocess_includes, make_preprocessor, chain_preprocessors
 from DHParser.nodetree import Node, RootNode, Path, WHITESPACE_PTYPE, KEEP_COMMENTS_PTYPE, \
     TOKEN_PTYPE, ZOMBIE_TAG, flatten_sxpr, parse_sxpr
-from DHParser.toolkit import load_if_file, wrap_str_literal, escape_ctrl_chars, md5, \
+from DHParser.toolkit import load_if_file, is_filename, wrap_str_literal, escape_ctrl_chars, md5, \
     sane_parser_name, re, expand_table, unrepr, compile_python_object, deprecated, \
     ThreadLocalSingletonFactory, Any, Iterable, Sequence, Set, AbstractSet, Union, Dict, List, \
     Tuple, FrozenSet, MutableSet, Optional, Type, Callable, Container, TypeAlias, \
@@ -330,6 +330,19 @@ def preprocess_ebnf(ebnf: str, source_name="source") -> PreprocessorResult:
     return get_ebnf_preprocessor()(ebnf, source_name)
 
 
+def grammar_checksum(grammar_source: str) -> str:
+    """Returns the checksum of a grammar given by its file name or as text.
+    Included files are part of the grammar."""
+    grammar = load_if_file(grammar_source)
+    if grammar.find('include') >= 0:
+        source_name = grammar_source if is_filename(grammar_source) else ''
+        try:
+            grammar = preprocess_ebnf(grammar, source_name).preprocessed_text
+        except (OSError, ValueError):
+            pass  # included files that cannot be read will be reported by the compilation
+    return md5(grammar, __version__)
+
+
 ########################################################################
 #
 # EBNF parsing
@@ -671,8 +684,7 @@ def grammar_changed(grammar_class, grammar_source: str) -> bool:
         True, if the source text of the grammar is different from the
         source from which the grammar class was generated
     """
-    grammar = load_if_file(grammar_source)
-    chksum = md5(grammar, __version__)
+    chksum = grammar_checksum(grammar_source)
     if isinstance(grammar_class, str):
         # grammar_class = load_compiler_suite(grammar_class)[1]
         with open(grammar_class, 'r', encoding='utf8') as f:
@@ -1731,6 +1743,7 @@ class EBNFCompiler(Compiler):
             grammar_name = os.path.splitext(os.path.basename(grammar_source))[0]
         self.grammar_name = grammar_name or "NameUnknown"
         self.grammar_source = load_if_file(grammar_source)
+        self.grammar_checksum = grammar_checksum(grammar_source)
 
     # methods for generating skeleton code for preprocessor, transformer, and compiler
 
@@ -2238,10 +2251,11 @@ class EBNFCompiler(Compiler):
             definitions.append(('early_tree_reduction__', opt))
         if self.grammar_source:
             definitions.append(('source_hash__',
-                                '"%s"' % md5(self.grammar_source, __version__)))
+                                '"%s"' % self.grammar_checksum))
             declarations.append('')
             if show_source:
-                declarations += [line for line in self.grammar_source.split('\n')]
+                declarations += [line.replace('"""', r'\"\"\"')
+                                 for line in self.grammar_source.split('\n')]
             while declarations[-1].strip() == '':
                 declarations = declarations[:-1]
         declarations.append('"""')
-- 
2.43.0


From 54da6b17d9e8125e04233afbc2a9355be8dfc4d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 107/137] fix: recompile_grammar, create_scripts: process all
 grammars of a directory

---
 DHParser/dsl.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index ce87171..628c046 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -657,9 +657,10 @@ def recompile_grammar(ebnf_filename: str,
     """
     if os.path.isdir(ebnf_filename):
         success = True
-        for entry in os.listdir(ebnf_filename):
-            if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                success = success and recompile_grammar(entry, parser_name, force)
+        for entry in sorted(os.listdir(ebnf_filename)):
+            path = os.path.join(ebnf_filename, entry)
+            if entry.lower().endswith('.ebnf') and os.path.isfile(path):
+                success = recompile_grammar(path, parser_name, force) and success
         return success
 
     base, _ = os.path.splitext(ebnf_filename)
@@ -734,9 +735,10 @@ def create_scripts(ebnf_filename: str,
     :param overwrite: If True an existing server script will be overwritten.
     """
     if os.path.isdir(ebnf_filename):
-        for entry in os.listdir(ebnf_filename):
-            if entry.lower().endswith('.ebnf') and os.path.isfile(entry):
-                create_scripts(entry)
+        for entry in sorted(os.listdir(ebnf_filename)):
+            path = os.path.join(ebnf_filename, entry)
+            if entry.lower().endswith('.ebnf') and os.path.isfile(path):
+                create_scripts(path)
         return
 
     base, _ = os.path.splitext(ebnf_filename)
-- 
2.43.0


From c5a40c49393c0bdc1e4b98db757635a96e631338 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 108/137] fix: compile_on_disk: do not lose the existing script
 if writing fails

---
 DHParser/dsl.py | 51 ++++++++++++++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/DHParser/dsl.py b/DHParser/dsl.py
index 628c046..49d90ce 100644
--- a/DHParser/dsl.py
+++ b/DHParser/dsl.py
@@ -577,34 +577,41 @@ def compile_on_disk(source_file: str,
         if RX_WHITESPACE.fullmatch(compiler):
             compiler = ebnf_compiler.gen_compiler_skeleton()
 
+        # write to a temporary file first, so that the existing script will not be lost
+        # if writing fails or is interrupted
+        script_name = os.path.realpath(parser_name)
+        temp_name = f'{script_name}.{os.getpid()}.tmp'
         try:
-            f = open(parser_name, 'w', encoding="utf-8")
-            f.write(intro)
-            f.write(SECTION_MARKER.format(marker=SYMBOLS_SECTION))
-            f.write(imports)
-            f.write(SECTION_MARKER.format(marker=PREPROCESSOR_SECTION))
-            f.write(preprocessor)
-            f.write(SECTION_MARKER.format(marker=PARSER_SECTION))
-            f.write(cast(str, result))
-            f.write(SECTION_MARKER.format(marker=AST_SECTION))
-            f.write(ast)
-            f.write(SECTION_MARKER.format(marker=COMPILER_SECTION))
-            f.write(compiler)
-            f.write(SECTION_MARKER.format(marker=END_SECTIONS_MARKER))
-            f.write(outro)
+            with open(temp_name, 'w', encoding="utf-8") as f:
+                f.write(intro)
+                f.write(SECTION_MARKER.format(marker=SYMBOLS_SECTION))
+                f.write(imports)
+                f.write(SECTION_MARKER.format(marker=PREPROCESSOR_SECTION))
+                f.write(preprocessor)
+                f.write(SECTION_MARKER.format(marker=PARSER_SECTION))
+                f.write(cast(str, result))
+                f.write(SECTION_MARKER.format(marker=AST_SECTION))
+                f.write(ast)
+                f.write(SECTION_MARKER.format(marker=COMPILER_SECTION))
+                f.write(compiler)
+                f.write(SECTION_MARKER.format(marker=END_SECTIONS_MARKER))
+                f.write(outro)
+
+            import platform, stat
+            if os.path.exists(script_name):
+                os.chmod(temp_name, stat.S_IMODE(os.stat(script_name).st_mode))
+            if platform.system() != "Windows":
+                # set file permissions so that the parser_name can be executed
+                st = os.stat(temp_name)
+                os.chmod(temp_name, st.st_mode | stat.S_IEXEC)
+            os.replace(temp_name, script_name)
         except (PermissionError, FileNotFoundError, IOError) as error:
             print(f'# Could not write file "{parser_name}" because of: '
                   + "\n# ".join(str(error).split('\n)')))
             print(result)
         finally:
-            if f:
-                f.close()
-
-        import platform, stat
-        if platform.system() != "Windows":
-            # set file permissions so that the parser_name can be executed
-            st = os.stat(parser_name)
-            os.chmod(parser_name, st.st_mode | stat.S_IEXEC)
+            if os.path.exists(temp_name):
+                os.remove(temp_name)
 
     else:
         f = None
-- 
2.43.0


From 4d4dc720c19f048cc73313aa06128f34197575e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 109/137] fix: compile_src in generated scripts passes
 cancel_query on

---
 DHParser/templates/DSLParser.pyi | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 1bbc04a..2e8793b 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -91,7 +91,7 @@ def compile_src(source: str,
         target-stage selected by parameter "target" and of the potentially
         empty list of errors.
     """
-    full_compilation_result = pipeline(source, target, start_parser)
+    full_compilation_result = pipeline(source, target, start_parser, cancel_query=cancel_query)
     return full_compilation_result[target]
 
 
-- 
2.43.0


From ff43a515929e790323da0ddc5b8f1e3e54109d9c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:57 +0000
Subject: [PATCH 110/137] fix: generated scripts find the messages-file of the
 grammar

---
 DHParser/templates/DSLParser.pyi | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/templates/DSLParser.pyi b/DHParser/templates/DSLParser.pyi
index 2e8793b..a8adcf1 100644
--- a/DHParser/templates/DSLParser.pyi
+++ b/DHParser/templates/DSLParser.pyi
@@ -163,8 +163,7 @@ def main(called_from_app=False) -> bool:
 
     if os.path.exists(grammar_path) and os.path.isfile(grammar_path):
         if not recompile_grammar(grammar_path, scriptpath, force=False, notify=notify):
-            error_file = os.path.basename(__file__)\
-                .replace('Parser.py', '_ebnf_MESSAGES.txt')
+            error_file = os.path.splitext(grammar_path)[0] + '_ebnf_MESSAGES.txt'
             with open(error_file, 'r', encoding="utf-8") as f:
                 print(f.read())
             sys.exit(1)
-- 
2.43.0


From a7c7aad6e43aaa6150391d8590f8b34735618bf5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:57 +0000
Subject: [PATCH 111/137] fix: preprocess_includes: an empty document is a
 document

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index f0a405b..636ddd8 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -574,7 +574,7 @@ def preprocess_includes(original_text: Optional[str],
     :return: the result of the preprocessing: (original document,
         processed document, source mapping, (possibly empty) list of errors)
     """
-    if not original_text:
+    if original_text is None:
         with open(original_name, 'r', encoding='utf-8') as f:
             original_text = f.read()
     include_map, result = generate_include_map(
-- 
2.43.0


From 7858656b4745e5ee6688604fa7872479ffd987b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 112/137] fix: content of XML-comments must not be escaped

---
 DHParser/nodetree.py          | 6 +++++-
 DHParser/parsers/XMLParser.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index be1514c..88bc405 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2204,9 +2204,12 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 'variable "xml_attribute_error_handling": ' + attr_err_handling
             attr_filter = attr_err_ignore
 
+        in_comment = False  # the content of comments must not be changed
+
         def opening(node: Node) -> str:
             """Returns the opening string for the representation of `node`."""
-            nonlocal self, attr_filter, _empty_tags, line_breaks
+            nonlocal self, attr_filter, _empty_tags, line_breaks, in_comment
+            in_comment = node.name == '!--'
             if node is self and node.name == ':XML':  return ''
             if node.name in string_tags and not node.has_attr():
                 if node.name == CHAR_REF_PTYPE and node.content.isalnum(): return "&#x"
@@ -2260,6 +2263,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
 
         def sanitizer(content: str) -> str:
             """Substitute "&", "<", ">" in XML-content by the respective entities."""
+            if in_comment:  return content
             content = subf(RX_CTRL_CHARS, ascii_xml_entity, content)
             content = RX_AMPERSAND.sub('&amp;', content)
             content = content.replace('<', '&lt;').replace('>', '&gt;')
diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index c280d9d..d547142 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -117,7 +117,7 @@ class XMLGrammar(Grammar):
                         'Attribute': [('', "syntax error in attribute definition:  {1}")]}
     COMMENT__ = r''
     comment_rx__ = RX_NEVER_MATCH
-    WHITESPACE__ = r'\s*'
+    WHITESPACE__ = r'[ \t\r\n]*'
     WSP_RE__ = mixin_comment(whitespace=WHITESPACE__, comment=COMMENT__)
     wsp__ = Whitespace(WSP_RE__)
     dwsp__ = Drop(Whitespace(WSP_RE__))
-- 
2.43.0


From df304f72544bad81260a1127df0111e83eca5831 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 113/137] fix: numeric character references in attribute values
 are not escaped a second time

---
 DHParser/toolkit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index a36039d..e0077ce 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -974,8 +974,8 @@ def matching_brackets(text: str,
     return matches
 
 
-# see definition of EntityRef in: XML-grammar: XML-grammar, see https://www.w3.org/TR/xml/
-RX_ENTITY = LazyRE(r'&(?:_|:|[A-Z]|[a-z]|[\u00C0-\u00D6]|[\u00D8-\u00F6]|[\u00F8-\u02FF]'
+# see definitions of EntityRef and CharRef in: XML-grammar: XML-grammar, see https://www.w3.org/TR/xml/
+RX_ENTITY = LazyRE(r'&#[0-9]+;|&#x[0-9a-fA-F]+;|&(?:_|:|[A-Z]|[a-z]|[\u00C0-\u00D6]|[\u00D8-\u00F6]|[\u00F8-\u02FF]'
                    r'|[\u0370-\u037D]|[\u037F-\u1FFF]|[\u200C-\u200D]|[\u2070-\u218F]'
                    r'|[\u2C00-\u2FEF]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]'
                    r'|[\U00010000-\U000EFFFF])(?:_|:|-|\.|[A-Z]|[a-z]|[0-9]|\u00B7'
-- 
2.43.0


From e89c5b252748d95b54c70aa9b14cbb4a0b114aad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 114/137] fix: parse_XML: empty CDATA-sections are well-formed

---
 DHParser/parsers/XMLParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index d547142..aac695a 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -135,7 +135,7 @@ class XMLGrammar(Grammar):
     CharData = RegExp('(?:(?!\\]\\]>)[^<&])+')
     PubidChars = RegExp("(?:\\x20|\\x0D|\\x0A|[a-zA-Z0-9]|[-'()+,./:=?;!*#@$_%])+")
     PubidCharsSingleQuoted = RegExp('(?:\\x20|\\x0D|\\x0A|[a-zA-Z0-9]|[-()+,./:=?;!*#@$_%])+')
-    CDSect = Series(Drop(Text('<![CDATA[')), CData, Drop(Text(']]>')))
+    CDSect = Series(Drop(Text('<![CDATA[')), Option(CData), Drop(Text(']]>')))
     PredefEntityRef = SmartRE(f'\\&amp;|\\&lt;|\\&gt;|\\&quot;|\\&apos;', '"&amp;"|"&lt;"|"&gt;"|"&quot;"|"&apos;"')
     NameChars = RegExp('(?x)(?:_|:|-|\\.|[A-Z]|[a-z]|[0-9]\n'
                           '|\\u00B7|[\\u0300-\\u036F]|[\\u203F-\\u2040]\n'
-- 
2.43.0


From 628ac85c94f3a6f73e0f0a169e9c3ffc7da3f7b3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 115/137] fix: parse_XML: processing instructions may consist
 of target and whitespace

---
 DHParser/parsers/XMLParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index aac695a..6dc6294 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -156,7 +156,7 @@ class XMLGrammar(Grammar):
     Comment = Series(Drop(Text('<!--')), ZeroOrMore(Alternative(CommentChars, RegExp('-(?!-)'))), dwsp__, Drop(Text('-->')))
     XmlPIAtts = Series(NegativeLookahead(Series(Option(Char), Drop(Text("?>")), Option(Char))), ZeroOrMore(Series(dwsp__, PseudoAtt)), dwsp__)
     PITarget = Series(SmartRE(f'(?![Xx][Mm][Ll])', '!/[Xx][Mm][Ll]/'), Name)
-    PI = Series(Drop(Text('<?')), PITarget, Option(Series(dwsp__, PIChars)), Drop(Text('?>')), mandatory=1)
+    PI = Series(Drop(Text('<?')), PITarget, Option(Series(dwsp__, Option(PIChars))), Drop(Text('?>')), mandatory=1)
     UnknownXmlPI = Series(Drop(Text("<?")), Drop(RegExp('[Xx][Mm][Ll]-?')), Name, XmlPIAtts, Drop(Text("?>")), mandatory=3)
     EntityRef = Series(Drop(Text('&')), Name, Drop(Text(';')))
     Reference = Alternative(EntityRef, CharRef)
-- 
2.43.0


From dcfc957195ac71341e3519965f24573a1d97ac5a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 116/137] fix: parse_XML: a leading processing instruction like
 xml-model is not an XML declaration

---
 DHParser/parsers/XMLParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index 6dc6294..9b0e284 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -180,7 +180,7 @@ class XMLGrammar(Grammar):
     EncodingDecl = Series(dwsp__, Drop(Text('encoding')), dwsp__, Drop(Text('=')), dwsp__, Alternative(Series(Drop(Text("\'")), EncName, Drop(Text("\'"))), Series(Drop(Text('"')), EncName, Drop(Text('"')))))
     VersionNum = RegExp('[0-9]+\\.[0-9]+')
     VersionInfo = Series(dwsp__, Drop(Text('version')), dwsp__, Drop(Text('=')), dwsp__, Alternative(Series(Drop(Text("\'")), VersionNum, Drop(Text("\'"))), Series(Drop(Text('"')), VersionNum, Drop(Text('"')))))
-    XMLDecl = Series(Drop(Text('<?xml')), VersionInfo, Option(EncodingDecl), Option(SDDecl), dwsp__, Drop(Text('?>')), mandatory=1)
+    XMLDecl = Series(Drop(RegExp('<\\?xml(?=\\s)')), VersionInfo, Option(EncodingDecl), Option(SDDecl), dwsp__, Drop(Text('?>')), mandatory=1)
     prolog = Series(Option(Series(dwsp__, XMLDecl)), Option(Misc), dwsp__, Option(Series(doctypedecl, Option(Misc), dwsp__)))
     element.set(Alternative(emptyElement, Series(STag, content, ETag, mandatory=1)))
     document = Series(Option(BOM), prolog, element, Option(Misc), dwsp__, EOF, mandatory=2)
-- 
2.43.0


From 4fdb19866b873014ef2d5d5252fe40118b302c8d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:05 +0000
Subject: [PATCH 117/137] fix: parse_XML: only XML-whitespace is whitespace

---
 DHParser/parsers/XMLParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index 9b0e284..0569f74 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -122,10 +122,10 @@ class XMLGrammar(Grammar):
     wsp__ = Whitespace(WSP_RE__)
     dwsp__ = Drop(Whitespace(WSP_RE__))
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
-    S = RegExp('\\s+')
+    S = RegExp('[ \\t\\r\\n]+')
     Char = RegExp('(?:\\x09|\\x0A|\\x0D|[\\u0020-\\uD7FF]|[\\uE000-\\uFFFD]|[\\U00010000-\\U0010FF'
        'FF])+')
-    CharRef = SmartRE(f'(?:\\&\\#)([0-9]+)(?:;)|(?:\\&\\#x)([0-9a-fA-F]+)(?:;)', "'&#' /[0-9]+/ ';'|'&#x' /[0-9a-fA-F]+/ ';'")
+    CharRef = SmartRE(f'(?:\\&\\#)([0-9]+)(?:;)|(?:\\&\\#)(x[0-9a-fA-F]+)(?:;)', "'&#' /[0-9]+/ ';'|'&#' /x[0-9a-fA-F]+/ ';'")
     CommentChars = RegExp('(?:(?!-)(?:\\x09|\\x0A|\\x0D|[\\u0020-\\uD7FF]|[\\uE000-\\uFFFD]|[\\U00010000-'
        '\\U0010FFFF]))+')
     PIChars = RegExp('(?:(?!\\?>)(?:\\x09|\\x0A|\\x0D|[\\u0020-\\uD7FF]|[\\uE000-\\uFFFD]|[\\U0001000'
-- 
2.43.0


From e098ef71582beb3bc1e6bc7e2ddf66264b4cb201 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:13 +0000
Subject: [PATCH 118/137] fix: parse_XML: whitespace next to references and
 CDATA-sections is not whitespace between tags

---
 DHParser/parsers/XMLParser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index 0569f74..6a0a1ef 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -324,12 +324,15 @@ class XMLTransformer(Compiler):
     def on_content(self, node) -> Union[Tuple[Node, ...], str]:
         xml_content: List[Node] = []
         preserve_ws = self.preserve_whitespace
-        for nd in node.children:
+        # whitespace next to references or CDATA-sections is not whitespace between tags
+        inline = {i for i, nd in enumerate(node.children)
+                  if nd.name in ('EntityRef', 'CharRef', 'CDSect')}
+        for i, nd in enumerate(node.children):
             if nd.name in self.expendables:  continue
             child = self.compile(nd)
             if child.name != TOKEN_PTYPE:
                 xml_content.append(child)
-            elif preserve_ws or child.content.strip() != '':
+            elif preserve_ws or child.content.strip(' \t\r\n') != '' or inline & {i - 1, i + 1}:
                 if xml_content and xml_content[-1].name == TOKEN_PTYPE:
                     xml_content[-1].result = xml_content[-1].content + child.content
                 else:
-- 
2.43.0


From 434d5245524d1ea92e9aa63300f4c47f5978e5a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:13 +0000
Subject: [PATCH 119/137] fix: parse_XML: character references keep their value
 and references in attributes are not lost

---
 DHParser/parsers/XMLParser.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/DHParser/parsers/XMLParser.py b/DHParser/parsers/XMLParser.py
index 6a0a1ef..c931a28 100755
--- a/DHParser/parsers/XMLParser.py
+++ b/DHParser/parsers/XMLParser.py
@@ -232,13 +232,28 @@ class XMLTransformer(Compiler):
     def finalize(self, result: Any) -> Any:
         return result
 
+    def hex_code(self, char_ref: Node) -> str:
+        """Returns the hexadecimal code of a character reference, no matter
+        whether it has been written in decimal or hexadecimal notation."""
+        code = char_ref.content
+        return code[1:] if code[0:1] == 'x' else f"{int(code):X}"
+
+    def attribute_value(self, node: Node) -> str:
+        """Returns the value of an attribute with the references it contains
+        left in place and line breaks and tabs normalized to blanks."""
+        def content(nd: Node) -> str:
+            if nd.name == "CharRef":  return f"&#x{self.hex_code(nd)};"
+            if nd.name == "EntityRef":  return f"&{nd.content};"
+            return ''.join(content(c) for c in nd.children) if nd.children else nd.content
+        return re.sub(r'[\n\r\t]', ' ', content(node))
+
     def extract_attributes(self, node_sequence):
         attributes = collections.OrderedDict()
         for node in node_sequence:
             if node.name in ("Attribute", "PseudoAtt"):
                 assert node[0].name == "Name", node.as_sexpr()
                 # assert node[1].name in ("AttValue", "PseudoAttValue"), node.as_sxpr()
-                attributes[node[0].content] = node[1].content.replace('\n', '')
+                attributes[node[0].content] = self.attribute_value(node[1])
         return attributes
 
     def value_constraint(self, node, value, allowed):
@@ -400,6 +415,7 @@ class XMLTransformer(Compiler):
 
     def on_CharRef(self, node) -> Node:
         # node.result = f"&#{node.content};"
+        node.result = self.hex_code(node)
         node.name = ":CharRef"
         return node
 
-- 
2.43.0


From 7fdf853d9971fa1f4579c61b007fdd49a45e1e9b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 120/137] fix: from_json_obj raises ValueError if the object
 does not represent a node (as documented)

---
 DHParser/nodetree.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 88bc405..52c3c37 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2431,8 +2431,14 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         """Converts a JSON object representing a node (or tree) back into a
         Node object. Raises a ValueError if `json_obj` does not represent
         a node."""
-        if isinstance(json_obj, Sequence):  # list flavor
-            assert 2 <= len(json_obj) <= 4, str(json_obj)
+        def ensure(condition: bool):
+            if not condition:
+                raise ValueError(f'JSON-object does not represent a node: {str(json_obj)[:80]}')
+
+        ensure(isinstance(json_obj, (list, tuple, dict)))
+        if not isinstance(json_obj, dict):  # list flavor
+            ensure(2 <= len(json_obj) <= 4 and isinstance(json_obj[0], str)
+                   and isinstance(json_obj[1], (str, list, tuple)))
             if isinstance(json_obj[1], str):
                 result = json_obj[1]  # type Union[Tuple[Node, ...], StringView, str]
             else:
@@ -2442,10 +2448,10 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 if isinstance(extra, dict):
                     node.attr.update(extra)
                 else:
-                    assert isinstance(extra, int)
+                    ensure(isinstance(extra, int))
                     node._pos = extra
         else:  # dictionary flavor
-            assert isinstance(json_obj, dict)
+            ensure(len(json_obj) > 0)
             name, result = list(json_obj.items())[0]
             if isinstance(result, str):
                 pos = -1
@@ -2454,7 +2460,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 if isinstance(result, dict):
                     result_iter = result.items()
                 else:
-                    assert isinstance(result, list)
+                    ensure(isinstance(result, list)
+                           and all(isinstance(kv, (list, tuple)) and len(kv) == 2 for kv in result))
                     result_iter = result
                     result = {k: v for k, v in result}
                 pos = int(result.get('pos__', -1))
-- 
2.43.0


From 2c00812a197e8cd80346570670ed4f37afa0cfa3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:46:29 +0000
Subject: [PATCH 121/137] fix: grammar tests: empty or blank expectations and
 expectations marked with an asterisk are not skipped

---
 DHParser/testing.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 6411b99..26df184 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -586,14 +586,12 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
         except AttributeError:
             return k
 
-    def get(tests, category, key) -> Union[Node, str]:
-        try:
-            try:
-                return tests[category][key]
-            except KeyError:
-                return tests[category][clean_key(key)]
-        except KeyError:
-            return ""
+    def get(tests, category, key) -> Union[Node, str, None]:
+        cases = tests.get(category, {})
+        clean = clean_key(key)
+        for k in (key, clean, f"{clean}*"):
+            if k in cases:  return cases[k]
+        return None
 
     if isinstance(test_unit, str):
         _, unit_name = os.path.split(os.path.splitext(test_unit)[0])
@@ -657,14 +655,17 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
     def flat_string_test(tests, stage, tree, test_name,
                          parser_name, test_code, errata) -> Union[Node, str]:
         compare = get(tests, stage, test_name)
-        if compare and isinstance(compare, str):
+        if isinstance(compare, str):
             content = tree.content
             if content == compare:
                 if verbose:  write(f'      {stage}-test "' + test_name + '" ... OK')
                 return ""
             else:
                 try:
-                    return deserialize(compare)
+                    expected = deserialize(compare)
+                    if expected is None:
+                        raise ValueError('Content does not match the expected content')
+                    return expected
                 except ValueError as e:
                     test_code_str = "\n\t".join(test_code.split("\n"))
                     e_str = str(e)
@@ -891,8 +892,9 @@ def grammar_unit(test_unit, parser_factory, transformer_factory, report='REPORT'
                                               f'\tExpected:  {compare_str}\n'
                                               f'\tReceived:  {test_str}')
                         else:
-                            compare = get(tests, stage, test_name).strip('\n')
-                            if compare:
+                            compare = get(tests, stage, test_name)
+                            if compare is not None:
+                                compare = compare.strip('\n')
                                 test_str = str(data)
                                 if stage in ('match', 'fail', 'AST', 'CST'):
                                     test_str = normalize_code(test_str, full_normalization=False)
-- 
2.43.0


From 59a219de1061814aef38bd9f5f9c4a7e305d7627 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 122/137] fix: unit_to_config: text ending with a quotation
 mark is not closed by the same mark

---
 DHParser/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 26df184..4af40b3 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -340,14 +340,14 @@ def format_casestr(s: str) -> str:
     """Adds quotation marks and possibly indentation to a text-case string."""
     if s.find("\n") >= 0:
         for q in ('"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and s[-1:] != q[0]:
                 l = s.split('\n')
                 for i in range(1, len(l)):
                     l[i] = "    " + l[i]
                 return ''.join((q, '\n'.join(l), q))
     else:
         for q in ('"', "'", '"""', "'''"):
-            if s.find(q) < 0:
+            if s.find(q) < 0 and s[-1:] != q[0]:
                 return ''.join((q, s, q))
     raise ValueError(
         f"Cannot add quotation marks to {s}, because all possible single or tripple "
-- 
2.43.0


From b695efe1f1a148ea13cd220e5ec4762d52e914e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 123/137] fix: duplicate keys in JSON-test-files are rejected
 instead of dropping tests

---
 DHParser/testing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 4af40b3..98956ec 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -372,7 +372,15 @@ def unit_from_json(json_str, filename, allowed_stages=UNIT_STAGES):
     """
     Reads grammar unit tests from a json string.
     """
-    unit = json.loads(json_str)
+    def unique_keys(pairs):
+        d = dict(pairs)
+        if len(d) < len(pairs):
+            keys = [k for k, _ in pairs]
+            raise KeyError('"%s": Key(s) %s used more than once!'
+                           % (filename, sorted({k for k in keys if keys.count(k) > 1})))
+        return d
+
+    unit = json.loads(json_str, object_pairs_hook=unique_keys)
     for symbol in unit:
         for stage in unit[symbol]:
             if stage not in allowed_stages:
-- 
2.43.0


From eee0372593d25919c2a330ebde4842373aa1b844 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 124/137] fix: reset_unit does not delete tests of later stages

---
 DHParser/testing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DHParser/testing.py b/DHParser/testing.py
index 98956ec..da0b6c5 100644
--- a/DHParser/testing.py
+++ b/DHParser/testing.py
@@ -1010,9 +1010,7 @@ def reset_unit(test_unit):
     """
     for parser, tests in test_unit.items():
         for key in list(tests.keys()):
-            if key not in UNIT_STAGES:
-                if key not in RESULT_STAGES:
-                    print('Removing unknown component %s from test %s' % (key, parser))
+            if key[:2] + key[-2:] == '____':
                 del tests[key]
 
 
-- 
2.43.0


From 45555a712a7ba264f7023045c52a28309556a32e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 125/137] fix: server: calls hit by a broken executor are
 retried with the new executor

---
 DHParser/server.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..f9ea0db 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -491,23 +491,30 @@ class ExecutionEnvironment:
                 append_log(self.log_file, 'WARNING: Broken ProcessPoolExecutor detected. '
                            'Starting a new ProcessPoolExecutor', echo=True)
             try:
-                # restart process pool and try again once
-                self.process_executor.shutdown(wait=True)
-                self._process_executor = ProcessPoolExecutor()
-                result = await self.loop.run_in_executor(executor, executable)
+                # restart process pool (unless this has already been done on behalf
+                # of another call that has been hit, too) and try again once
+                if self._process_executor is executor:
+                    self._process_executor = ProcessPoolExecutor()
+                    executor.shutdown(wait=True)
+                result = await self.loop.run_in_executor(self.process_executor, executable)
             except BrokenProcessPool as e:
                 rpc_error = -32050, str(e)
+            except Exception as e:
+                rpc_error = -32000, "Server Error %s: %s" % (str(type(e)), str(e))
         except BrokenThreadPool as e:
             if self.log_file:
                 append_log(self.log_file, 'WARNING: Broken ThreadPoolExecutor detected. '
                            'Starting a new ThreadPoolExecutor', echo=True)
             try:
                 # restart thread pool and try again once
-                self.thread_executor.shutdown(wait=True)
-                self._thread_executor = ThreadPoolExecutor()
-                result = await self.loop.run_in_executor(executor, executable)
+                if self._thread_executor is executor:
+                    self._thread_executor = ThreadPoolExecutor()
+                    executor.shutdown(wait=True)
+                result = await self.loop.run_in_executor(self.thread_executor, executable)
             except BrokenThreadPool as e:
                 rpc_error = -32060, str(e)
+            except Exception as e:
+                rpc_error = -32000, "Server Error %s: %s" % (str(type(e)), str(e))
         except Exception as e:
             stacktrace = traceback.format_exc()
             rpc_error = -32000, "Server Error %s: %s\n%s" % (str(type(e)), str(e), stacktrace)
-- 
2.43.0


From f7f73817834626ca29bca7410b69e7bd35100ec6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 126/137] fix: server: length of plain responses is counted in
 bytes

---
 DHParser/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index f9ea0db..58e6eb0 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1390,8 +1390,8 @@ class Server:
 
         async def respond(response: Union[str, bytes, bytearray]):
             if header:
-                HEADER = JSONRPC_HEADER if isinstance(response, str) else JSONRPC_HEADER_BYTES
-                await self.respond(writer, HEADER % len(response) + response)
+                if isinstance(response, str):  response = response.encode()
+                await self.respond(writer, JSONRPC_HEADER_BYTES % len(response) + response)
             else:
                 await self.respond(writer, response)
 
-- 
2.43.0


From 2e7fb47ae7d9a1a1f5c34d51a8242257ee774a24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 127/137] fix: server: requests that arrive together with the
 end of the stream are answered

---
 DHParser/server.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 58e6eb0..7860265 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1595,12 +1595,13 @@ class Server:
         else:
             id_connection = ''
 
+        buffer = bytearray()  # type: bytearray
+
         def connection_alive() -> bool:
             """-> `False` if connection is dead or shall be shut down."""
             return not self.kill_switch and self.connection is not None \
-                   and self.connection.alive and not reader.at_eof()  # and not reader.closed
+                   and self.connection.alive and (bool(buffer) or not reader.at_eof())
 
-        buffer = bytearray()  # type: bytearray
         while connection_alive():
             # reset the data variable
             data = bytearray()  # type: bytearray
@@ -1795,6 +1796,10 @@ class Server:
                 self.log('SERVER MESSAGE: Closing service-connection.')
                 return
 
+        if id_connection and self.connection and reader.at_eof():
+            # end of file may have been reached together with the last request
+            self.connection.alive = False
+
         if self.connection and (self.kill_switch or not self.connection.alive):
             await self.connection.cleanup()
             try:
-- 
2.43.0


From 9fcfc4bd8c0567c7a2fa2fe27e308d81749ac060 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 128/137] fix: server: each json-rpc request receives exactly
 one well-formed response with its own id

---
 DHParser/server.py | 86 +++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 47 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 7860265..2c91cef 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1373,7 +1373,7 @@ class Server:
                 params.update({'service_call': True, 'html': html})
                 return func, params
             else:
-                return func, argument + (True, html)
+                return func, tuple(argument) + (True, html)
         else:
             return err_func, {} if isinstance(argument, Dict) else ()
 
@@ -1493,7 +1493,14 @@ class Server:
         assert self.connection
         self.connection.task_done(task_id)
 
-    async def handle_jsonrpc_request(self, json_id: int,
+    @staticmethod
+    def jsonrpc_error(rpc_error: RPC_Error_Type, json_id: Union[int, str, None]) -> str:
+        """Returns the json-rpc-response for an error."""
+        code, message = cast(Tuple[int, str], rpc_error)
+        return '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}, "id": %s}' \
+               % (code, json_encode_string(str(message)), json_dumps(json_id))
+
+    async def handle_jsonrpc_request(self, task_id: int,
                                      reader: StreamReaderType,
                                      writer: StreamWriterType,
                                      json_obj: Dict,
@@ -1501,10 +1508,13 @@ class Server:
         # TODO: handle cancellation calls!
         result = None      # type: Optional[JSON_Type]
         rpc_error = None   # type: Optional[RPC_Error_Type]
+        json_id = json_obj.get('id', task_id)
         method_name = json_obj.get('method', '')
-        if json_obj.get('jsonrpc', '0.0') < '2.0':
-            rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, version "' \
-                                ' "%s" found.' % json_obj.get('jsonrpc', b'unknown')
+        # all other calls are notifications which must not be answered
+        is_request = 'id' in json_obj and method_name not in ('initialized', 'exit')
+        if not isinstance(json_obj.get('jsonrpc', None), str) or json_obj['jsonrpc'] < '2.0':
+            rpc_error = -32600, 'Invalid Request: jsonrpc version 2.0 needed, version ' \
+                                '"%s" found.' % json_obj.get('jsonrpc', 'unknown')
         elif not method_name:
             rpc_error = -32600, 'Invalid Request: No method specified.'
         elif method_name == STOP_SERVER_REQUEST:
@@ -1525,52 +1535,39 @@ class Server:
                     "error": {"code": -32601,
                               "message": "%s is not a service function" % method_name}}
                 method, params = self.amend_service_call(method_name, method, params, err_func)
-            params['ID'] = json_id
+            if isinstance(params, Dict):  params['ID'] = json_id
             result, rpc_error = await self.run(method_name, method, params)
 
         if isinstance(result, Dict) and 'error' in result:
             try:
-                rpc_error = result['error']['code'], result['error']['message']
-            except KeyError:
+                rpc_error = int(result['error']['code']), result['error']['message']
+            except (KeyError, TypeError, ValueError):
                 rpc_error = -32603, 'Inconclusive error object: ' + str(result)
 
         if rpc_error is None:
-            try:
-                # check for json-rpc errors contained within the result
-                try:
-                    error = cast(Dict[str, str], result['error'])
-                except KeyError:
-                    error = cast(Dict[str, str], result)
-                rpc_error = int(error['code']), error['message']
-            except TypeError:
-                pass  # result is not a dictionary, never mind
-            except KeyError:
-                pass  # no errors in result
-            if json_id is not None and result is not None:
+            # error-objects as results have been dealt with, above. Mind that any other
+            # result must be returned as it is, even if it contains a field "code" or "message".
+            if is_request:
                 try:
+                    id_str = json_dumps(json_id)
                     if isinstance(result, (bytes, bytearray)):
                         # assume that result is a json-format byte-string!
-                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %i}' % (result, json_id)
+                        response = b'{"jsonrpc": "2.0", "result": %s, "id": %s}' \
+                                   % (result, id_str.encode())
                     else:
                         json_result = {"jsonrpc": "2.0", "result": result, "id": json_id}
                         response = json_dumps(json_result, cls=DHParser_JSONEncoder)
                     await self.respond(writer, response)
-                except TypeError as err:
+                except (TypeError, ValueError) as err:
                     rpc_error = -32070, str(err)
 
-        if rpc_error is not None:
-            if json_id >= 0:
-                json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}, "id": %s}'%\
-                       (rpc_error[0], json_encode_string(rpc_error[1]), str(json_id))
-            else:
-                json_str = '{"jsonrpc": "2.0", "error": {"code": %i, "message": %s}}' % \
-                       (rpc_error[0], json_encode_string(rpc_error[1]))
-            await self.respond(writer, json_str)
+        if rpc_error is not None and is_request:
+            await self.respond(writer, self.jsonrpc_error(rpc_error, json_id))
 
         if result is not None or rpc_error is not None:
             await writer.drain()
         assert self.connection
-        self.connection.task_done(json_id)
+        self.connection.task_done(task_id)
 
     async def handle(self, reader: StreamReaderType, writer: StreamWriterType):
         assert self.loop is not None
@@ -1719,7 +1716,7 @@ class Server:
                 # assume json
                 # TODO: add batch processing capability!
                 #       (put calls to execute in asyncio tasks, use asyncio.gather)
-                json_id = 0       # type: int
+                json_id = None    # type: Union[int, str, None]
                 raw = None        # type: Optional[JSON_Type]
                 json_obj = {}     # type: JSON_Dict
                 rpc_error = None  # type: Optional[RPC_Error_Type]
@@ -1736,18 +1733,13 @@ class Server:
                     try:
                         raw = json.loads(data) if sys.version_info >= (3, 6, 0) \
                             else json.loads(data.decode())
-                    except json.decoder.JSONDecodeError as e:
-                        rpc_error = -32700, "JSONDecodeError: " \
-                            + (str(e) + str(data)).replace('"', "`")
+                    except ValueError as e:  # JSONDecodeError, UnicodeDecodeError
+                        rpc_error = -32700, "JSONDecodeError: " + str(e) + str(data)
 
                 if rpc_error is None:
                     if isinstance(raw, Dict):
                         json_obj = cast(JSON_Dict, raw)
-                        raw_id = json_obj.get('id', gen_task_id())
-                        try:
-                            json_id = int(raw_id)
-                        except TypeError:
-                            json_id = 0
+                        json_id = json_obj.get('id', None)
                     else:
                         rpc_error = -32700, 'Parse error: JSON-package does not appear '\
                                             'to ba an RPC-call or -response!?'
@@ -1755,15 +1747,17 @@ class Server:
                 if rpc_error is None:
                     method = json_obj.get('method', '')
                     response = json_obj.get('result', None) or json_obj.get('error', None)
-                    if method:
-                        assert isinstance(method, str)
+                    if method and not isinstance(method, str):
+                        rpc_error = -32600, 'Invalid Request: name of method is not a string.'
+                    elif method:
                         if id_connection or method != 'initialize':
                             rpc_error = self.connection.verify_initialization(
                                 method, self.strict_lsp and bool(id_connection))
                             if rpc_error is None:
+                                task_id = gen_task_id()
                                 task = self.connection.create_task(
-                                    json_id, self.handle_jsonrpc_request(
-                                        json_id, reader, writer, json_obj, not bool(id_connection)))
+                                    task_id, self.handle_jsonrpc_request(
+                                        task_id, reader, writer, json_obj, not bool(id_connection)))
                                 if method == 'exit':
                                     await task
                                     task = None
@@ -1777,9 +1771,7 @@ class Server:
                                             '"method" or "response"-field missing.'
 
                 if rpc_error is not None:
-                    response = '{"jsonrpc": "2.0", "error": {"code": %i, "message": "%s"},'\
-                        ' "id": %s}' % (rpc_error[0], rpc_error[1], json_id)
-                    await self.respond(writer, response)
+                    await self.respond(writer, self.jsonrpc_error(rpc_error, json_id))
 
             if not id_connection:
                 if task:
-- 
2.43.0


From e98f5c24ccb86d1543e59670d9475a9545aa8090 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:32:45 +0000
Subject: [PATCH 129/137] fix: an interleave that contains the same symbol more
 than once requires each occurrence

---
 DHParser/parse.pxd |  1 -
 DHParser/parse.py  | 16 ++++++++--------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/DHParser/parse.pxd b/DHParser/parse.pxd
index 09ad13b..5da4da9 100644
--- a/DHParser/parse.pxd
+++ b/DHParser/parse.pxd
@@ -152,7 +152,6 @@ cdef class TextAlternative(Alternative):
 cdef class Interleave(ErrorCatchingNary):
     cdef public object repetitions
     cdef public object non_mandatory
-    cdef public object parsers_set
 
 cdef class FlowParser(UnaryParser):
     pass
diff --git a/DHParser/parse.py b/DHParser/parse.py
index f9663d0..81c371d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4599,8 +4599,8 @@ class Interleave(ErrorCatchingNary):
         elif len(parsers) != len(repetitions):
             raise ValueError("Number of repetition-tuples unequal number of sub-parsers!")
         self.repetitions = list(repetitions)  # type: List[Tuple[int, int]]
-        self.non_mandatory = frozenset(parsers[i] for i in range(min(mandatory, len(parsers))))
-        self.parsers_set = frozenset(self.parsers)
+        # the same parser can occur more than once, therefore indices, not parsers are registered
+        self.non_mandatory = frozenset(range(min(mandatory, len(parsers))))
 
     def __deepcopy__(self, memo):
         parsers = copy.deepcopy(self.parsers, memo)
@@ -4614,12 +4614,12 @@ class Interleave(ErrorCatchingNary):
         results = ()  # type: Tuple[Node, ...]
         location_ = location  # type: int
         counter = [0] * len(self.parsers)
-        consumed = set()  # type: MutableSet[Parser]
+        consumed = set()  # type: MutableSet[int]
         error = None  # type: Optional[Error]
         while True:
             # there is an order of testing, but no promise about the order of testing, here!
             for i, parser in enumerate(self.parsers):
-                if parser not in consumed:
+                if i not in consumed:
                     node, location__ = parser(location_)
                     if node is not None:
                         if node._result or not node.name[0] == ':':  # node.anonymous:  # drop anonymous empty nodes
@@ -4627,14 +4627,14 @@ class Interleave(ErrorCatchingNary):
                             # location_ = location__
                         counter[i] += 1
                         if counter[i] >= self.repetitions[i][1]:
-                            consumed.add(parser)
+                            consumed.add(i)
                         break
             else:
-                for i, parser in enumerate(self.parsers):
+                for i in range(len(self.parsers)):
                     if counter[i] >= self.repetitions[i][0]:
-                        consumed.add(parser)
+                        consumed.add(i)
                 if self.non_mandatory <= consumed:
-                    if len(consumed) == len(self.parsers_set):  # faster than: comsumed == self.parsers_set
+                    if len(consumed) == len(self.parsers):
                         break
                 else:
                     return None, location
-- 
2.43.0


From 988ca0f06b2c8696d0a302bc3d63085a417ad346 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:54:45 +0000
Subject: [PATCH 130/137] fix: transform.has_ancestor() does not count the node
 itself among its ancestors

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index fa85d38..691d18d 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -830,7 +830,7 @@ def has_ancestor(path: Path,
     else:
         trl = path
     if generations <= 0:
-        return any(nd.name in name_set for nd in trl)
+        return any(nd.name in name_set for nd in trl[:-1])
     for i in range(2, min(generations + 2, len(trl) + 1)):
         if trl[-i].name in name_set:
             return True
-- 
2.43.0


From 271eabe42b57944badf4787ef42c7295c8b6cf9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:54:45 +0000
Subject: [PATCH 131/137] fix: transform.content_matches() and name_matches()
 match the complete string, not merely up to a final linefeed

---
 DHParser/transform.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 691d18d..cbe94f6 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -759,9 +759,7 @@ def name_matches(path: Path, regexp: str) -> bool:
     Returns true, if the node's name matches the regular
     expression `regexp` completely. For example, ':.*' matches all anonymous nodes.
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].name))
+    return bool(re.fullmatch(regexp, path[-1].name))
 
 
 @transformation_factory
@@ -772,9 +770,7 @@ def content_matches(path: Path, regexp: str) -> bool:
     In contrast to ``re.match`` the regular expression must match the complete
     string and not just the beginning of the string to succeed!
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].content))
+    return bool(re.fullmatch(regexp, path[-1].content))
 
 
 @transformation_factory
-- 
2.43.0


From 8d3a48a3c356f0b321df6e02fefcc79aaa4849f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:57:24 +0000
Subject: [PATCH 132/137] fix: transform.is_single_child() does not crash when
 applied to the root-node

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index cbe94f6..86a8908 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -673,7 +673,7 @@ def three_valued(path: Path, cond_true: CondFunc, cond_false: CondFunc) -> Optio
 
 def is_single_child(path: Path) -> bool:
     """Returns ``True`` if the current node does not have any siblings."""
-    return len(path[-2]._children) == 1
+    return len(path) >= 2 and len(path[-2]._children) == 1
 
 
 # TODO: ambiguous: named, tagging...
-- 
2.43.0


From 8102f765c9f5a1ebfcb976096f194aae1b41b701 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:34:28 +0000
Subject: [PATCH 133/137] fix: error-messages in S-expressions are read back,
 even if they contain quotation marks or brackets

---
 DHParser/nodetree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 52c3c37..c281e9d 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -412,7 +412,7 @@ def create_path_match_function(criterion: PathSelector) -> PathMatchFunction:
 
 
 RX_IS_SXPR = LazyRE(r'\s*\(')
-RX_SXPR_STRING = LazyRE(r'''("""(?s:.*?)"""|\'\'\'(?s:.*?)\'\'\'|"[^"]*"|'[^']*')''')
+RX_SXPR_STRING = LazyRE(r'''((?<=\(err )"(?:[^"\\]|\\(?s:.))*"(?=\s*\))|"""(?s:.*?)"""|\'\'\'(?s:.*?)\'\'\'|"[^"]*"|'[^']*')''')
 RX_IS_XML = LazyRE(r'\s*<')
 RX_ATTR_NAME = LazyRE(r'[\w.:-]')
 
@@ -3417,7 +3417,7 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 sxpr = sxpr[sxpr.index(m_pos.end()):].strip()
                 continue
             m_attr = sxpr[L:].match(RX_SXPR_ATTR)
-            if m_attr and m_attr.group(1) != 'err' and (L > 1 or m_attr.group(1) != 'pos'):
+            if m_attr and (L > 1 or m_attr.group(1) != 'pos'):
                 value = m_attr.group(2)
                 q = 3 if len(value) >= 6 and value[:3] in ('"""', "'''") else 1
                 attributes[m_attr.group(1)] = value[q:-q]
-- 
2.43.0


From f680f643c9e412606b76a430c80344eef8f98b2c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:47:59 +0000
Subject: [PATCH 134/137] fix: recovery rules that are violated themselves
 crashed the parser instead of being reported

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 81c371d..0071b1e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -433,7 +433,7 @@ def reentry_point(rest: StringView,
                 _text = parser.grammar.document__[_location:]
             except ParserError as pe:
                 grammar.tree__.new_error(
-                    grammar.tree__,
+                    Node(ZOMBIE_TAG, '').with_pos(location),  # root has no position, yet
                     f"Error while searching re-entry point with parser {parser}: {pe}",
                     ERROR_WHILE_RECOVERING_FROM_ERROR)
                 _node, _text = None, ''
-- 
2.43.0


From bed37422c6170708dcca59645fcf820daf1b2434 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:49:31 +0000
Subject: [PATCH 135/137] fix: lean_left() and move_fringes() left wrong
 positions on the nodes they rearranged

---
 DHParser/transform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 86a8908..857f953 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1506,10 +1506,12 @@ def merge_results(dest: Node, src: Tuple[Node, ...], root: Node) -> bool:
         result = fuse_anonymous_leaves(result)
         dest.result = tuple(result)
         update_attr(dest, src, root)
+        dest._pos = src[0]._pos
         return True
     elif not any(nd._children for nd in src):
         dest.result = ''.join(nd._result for nd in src)  # reduce(operator.add, (nd.content for nd in src[1:]), src[0].content)
         update_attr(dest, src, root)
+        dest._pos = src[0]._pos
         return True
     return False
 
@@ -1586,6 +1588,8 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
 
     if before or after:
         node._set_result(children)
+        if before and children:
+            node._pos = children[0]._pos
         parent_children = parent._children
         for i, child in enumerate(parent_children):
             if id(child) == id(node):
@@ -1720,6 +1724,7 @@ def lean_left(path: Path, operators: AbstractSet[str]):
         op2 = right.name
         right.result = (a, b)
         right.name = op1
+        right._pos = node._pos
         node.result = (right, c)
         node.name = op2
         swap_attributes(node, right)
-- 
2.43.0


From 8c196572ca92217ba8870b1cd8f1dc4c1ca5d87a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:35 +0000
Subject: [PATCH 136/137] fix: relative_path() cut names with the same
 beginning in two, split_path() never returned for absolute paths

---
 DHParser/toolkit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index e0077ce..7bea4c5 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -474,6 +474,7 @@ def relative_path(from_path: str, to_path: str) -> str:
     L = min(len(from_path), len(to_path))
     while i < L and from_path[i] == to_path[i]:
         i += 1
+    i = from_path.rfind('/', 0, i) + 1  # don't cut names with the same beginning in two
     return os.path.normpath(from_path[i:].count('/') * '../' + to_path[i:])
 
 
@@ -488,7 +489,10 @@ def split_path(path: str) -> Tuple[str, ...]:
     """
     split = os.path.split(path)
     while split[0]:
-        split = os.path.split(split[0]) + split[1:]
+        head, tail = os.path.split(split[0])
+        if head == split[0]:  # root-directory reached
+            return split if split[1:] != ('',) else split[:1]
+        split = (head, tail) + split[1:]
     return split[1:]
 
 
-- 
2.43.0


From 93db9489c8257542699a8bfc3a58eef7056d1d26 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:57:35 +0000
Subject: [PATCH 137/137] fix: cached_load() never found its own data in
 another process and failed on truncated cache-files

---
 DHParser/toolkit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 7bea4c5..97e8bf8 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1218,11 +1218,12 @@ def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~
             if cachedir:
                 with open(file_name, 'r', encoding='utf-8') as f:
                     source = f.read()
-                if hash_data == hash(source):
+                if hash_data == md5(source):
                     return data
             else:
                 return data
-        except pickle.UnpicklingError as e:
+        except (pickle.UnpicklingError, EOFError, AttributeError, ImportError,
+                IndexError, ValueError, TypeError) as e:
             print(f'{e} encountered while loading data from cache "{cache_name}"!'
                   f'If this error persists, then delete the cache file "{cache_name}" manually.')
     if source is None:
@@ -1230,7 +1231,7 @@ def cached_load(file_name: str, deserialize: DeserializeFunc, cachedir: str = "~
             source = f.read()
     data = deserialize(typing.cast(str, source))
     with open(cache_name, 'wb') as f:
-        pickle.dump((hash(source), data), f)
+        pickle.dump((md5(source), data), f)
     return data
 
 
-- 
2.43.0

