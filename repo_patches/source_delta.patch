From 6c0961e20011f25a817239d3b8016ae038747766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 01/38] fix: keep indices valid when a string pattern ignores
 case and lower case is longer (U+0130)

---
 rebulk/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index 935abdb..d1f1b2f 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -53,8 +53,10 @@ def find_all(
     :rtype: __generator[str]
     """
     if ignore_case:
-        sub = sub.lower()
-        string = string.lower()
+        # U+0130 is the only character whose lower case is longer than itself: use its simple
+        # lower case, as re.IGNORECASE does, so that indices stay valid for the original string
+        sub = sub.replace("\u0130", "i").lower()
+        string = string.replace("\u0130", "i").lower()
     while True:
         start = string.find(sub, start, end)
         if start == -1:
-- 
2.43.0


From 987f5524b1a23af12174b44d3a45dd872d98e141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 02/38] fix: string search ends for an empty pattern string

---
 rebulk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/utils.py b/rebulk/utils.py
index d1f1b2f..2d3956b 100644
--- a/rebulk/utils.py
+++ b/rebulk/utils.py
@@ -62,7 +62,7 @@ def find_all(
         if start == -1:
             return
         yield start
-        start += len(sub)
+        start += len(sub) or 1  # an empty substring is found everywhere: keep moving
 
 
 def get_first_defined(
-- 
2.43.0


From 0a2927357d163897a7449cd0abfb89951ea5f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:54 +0000
Subject: [PATCH 03/38] fix: chain repeater '{m}' means exactly m repetitions

---
 rebulk/chain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 18be788..8128106 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -386,10 +386,11 @@ class ChainPart(BasePattern):
             self.repeater_start = 0
             self.repeater_end = 1
         else:
-            match = re.match(r"\{\s*(\d*)\s*,?\s*(\d*)\s*\}", value)
+            match = re.match(r"\{\s*(\d*)\s*(,?)\s*(\d*)\s*\}", value)
             if match:
                 start = match.group(1)
-                end = match.group(2)
+                # without comma, {m} means exactly m
+                end = match.group(3) if match.group(2) else start
                 if start or end:
                     self.repeater_start = int(start) if start else 0
                     self.repeater_end = int(end) if end else None
-- 
2.43.0


From 2d7ac33b08dfec5748afc9dd1cafbee358592cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 04/38] fix: chain search resumes at the right text after an
 abandoned attempt

---
 rebulk/chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 8128106..6379330 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -82,6 +82,7 @@ class Chain(Pattern):
                     valid_chain = False
                     if current_chain_matches:
                         offset = current_chain_matches[0].raw_end
+                        chain_input_string = input_string[offset:]
                     break
             if not chain_found:
                 break
-- 
2.43.0


From baa06c38a8f746b339acbf36545b0b365739056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 05/38] fix: match list lookups follow item assignment,
 insertion, removal and unknown keys

---
 rebulk/match.py | 62 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 1558dfe..74157dc 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -190,20 +190,48 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :param match:
         :type match: Match
         """
+        if any(remaining is match for remaining in self._delegate):
+            # this match was in the list more than once
+            self._reset_lookups()
+            return
         if self.__name_dict is not None and match.name:
-            _BaseMatches._base_remove(self._name_dict[match.name], match)
+            _BaseMatches._lookup_remove(self._name_dict, match.name, match)
         if self.__tag_dict is not None:
             for tag in match.tags:
-                _BaseMatches._base_remove(self._tag_dict[tag], match)
+                _BaseMatches._lookup_remove(self._tag_dict, tag, match)
         if self.__start_dict is not None:
-            _BaseMatches._base_remove(self._start_dict[match.start], match)
+            _BaseMatches._lookup_remove(self._start_dict, match.start, match)
         if self.__end_dict is not None:
-            _BaseMatches._base_remove(self._end_dict[match.end], match)
+            _BaseMatches._lookup_remove(self._end_dict, match.end, match)
         if self.__index_dict is not None:
             for index in range(*match.span):
-                _BaseMatches._base_remove(self._index_dict[index], match)
-        if match.end >= self._max_end and not self._end_dict[match.end]:
-            self._max_end = max(self._end_dict.keys())
+                _BaseMatches._lookup_remove(self._index_dict, index, match)
+        if match.end >= self._max_end:
+            self._max_end = max((remaining.end for remaining in self._delegate), default=0)
+
+    @staticmethod
+    def _lookup_remove(lookup: dict[Any, list[Match]], key: Any, match: Match) -> None:
+        """
+        Remove this very match (not another one equal to it) from a lookup structure, and the key once it is empty.
+        """
+        found = lookup[key]
+        for position, candidate in enumerate(found):
+            if candidate is match:
+                del found[position]
+                break
+        if not found:
+            del lookup[key]
+
+    def _reset_lookups(self) -> None:
+        """
+        Forget lookup structures, they are built again from the list on next use.
+        """
+        self.__name_dict = None
+        self.__tag_dict = None
+        self.__start_dict = None
+        self.__end_dict = None
+        self.__index_dict = None
+        self._max_end = max((match.end for match in self._delegate), default=0)
 
     @overload
     def previous(self, match: Match, predicate: int) -> Match | None: ...
@@ -308,7 +336,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             index = extras[1]
         collection: list[Match] = []
         for name in dict.fromkeys(name_list):
-            collection.extend(self._name_dict[name])
+            collection.extend(self._name_dict.get(name, ()))
         return filter_index(collection, predicate, index)
 
     @overload
@@ -331,7 +359,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         :return: set of matches
         :rtype: set[Match]
         """
-        return filter_index(_BaseMatches._base(self._tag_dict[tag]), predicate, index)
+        return filter_index(_BaseMatches._base(self._tag_dict.get(tag, ())), predicate, index)
 
     @overload
     def starting(self, start: int, predicate: int) -> Match | None: ...
@@ -831,7 +859,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     def __getitem__(self, index: int | slice | Key[Any]) -> Any:
         if isinstance(index, Key):
-            named = self._name_dict[index.name]
+            named = self._name_dict.get(index.name)
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
@@ -842,7 +870,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieve all values for the given typed key, in match order.
         """
-        return [match.value for match in self._name_dict[key.name]]
+        return [match.value for match in self._name_dict.get(key.name, ())]
 
     def to(self, model: type[M]) -> M:
         """
@@ -903,7 +931,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     f"{model.__name__} field {name!r} typed {hint!r} contradicts "
                     f"declared key {name!r} of value_type {declared.value_type!r}"
                 )
-            values = [match.value for match in self._name_dict[name]]
+            values = [match.value for match in self._name_dict.get(name, ())]
             if get_origin(hint) is list:
                 kwargs[name] = values
             elif values:
@@ -956,12 +984,15 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: slice, match: Iterable[Match]) -> None: ...
 
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
+        if isinstance(index, slice):
+            match = list(match)  # type: ignore[arg-type]
         self._delegate[index] = match  # type: ignore[index,assignment]
         if isinstance(index, slice):
             for match_item in match:  # type: ignore[union-attr]
                 self._add_match(match_item)
-            return
-        self._add_match(match)  # type: ignore[arg-type]
+        else:
+            self._add_match(match)  # type: ignore[arg-type]
+        self._reset_lookups()
 
     def __delitem__(self, index: int | slice) -> None:
         match = self._delegate[index]
@@ -977,8 +1008,11 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         return self._delegate.__repr__()
 
     def insert(self, index: int, value: Match) -> None:
+        last = index >= len(self._delegate)
         self._delegate.insert(index, value)
         self._add_match(value)
+        if not last:
+            self._reset_lookups()
 
 
 class Matches(_BaseMatches):
-- 
2.43.0


From 851b9d31567cf8b91ea8d0a1f3cb74e0755022af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 06/38] fix: at_index returns a list independent of the lookup
 structures

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 74157dc..07171e6 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -784,7 +784,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         Retrieves a list of matches from given position
         """
-        return filter_index(self._index_dict[pos], predicate, index)
+        return filter_index(_BaseMatches._base(self._index_dict[pos]), predicate, index)
 
     @property
     def names(self) -> KeysView[str | None]:
-- 
2.43.0


From a3c5b7cf88eb7a62ce3ea1caf3c794e43792a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 07/38] fix: markers can be sliced and built from matches

---
 rebulk/match.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 07171e6..c113351 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -863,7 +863,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Matches(ret)
+            return Markers(ret) if isinstance(self, Markers) else Matches(ret)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1035,7 +1035,7 @@ class Markers(_BaseMatches):
     """
 
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
-        super().__init__(matches=None, input_string=input_string)
+        super().__init__(matches=matches, input_string=input_string)
 
     def _add_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-- 
2.43.0


From bbea3f93dc2c8dc5111e92a58c398d16d5de24ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:14 +0000
Subject: [PATCH 08/38] fix: a refused match leaves the match list unchanged

---
 rebulk/match.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index c113351..9f909e5 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -164,6 +164,13 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
         return self.__index_dict
 
+    def _check_match(self, match: Match) -> None:
+        """
+        Refuse a match of the wrong kind, before the list changes
+        :param match:
+        :type match: Match
+        """
+
     def _add_match(self, match: Match) -> None:
         """
         Add a match
@@ -986,6 +993,10 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __setitem__(self, index: int | slice, match: Match | Iterable[Match]) -> None:
         if isinstance(index, slice):
             match = list(match)  # type: ignore[arg-type]
+            for match_item in match:
+                self._check_match(match_item)
+        else:
+            self._check_match(match)  # type: ignore[arg-type]
         self._delegate[index] = match  # type: ignore[index,assignment]
         if isinstance(index, slice):
             for match_item in match:  # type: ignore[union-attr]
@@ -1009,6 +1020,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
 
     def insert(self, index: int, value: Match) -> None:
         last = index >= len(self._delegate)
+        self._check_match(value)
         self._delegate.insert(index, value)
         self._add_match(value)
         if not last:
@@ -1024,9 +1036,8 @@ class Matches(_BaseMatches):
         self.markers = Markers(input_string=input_string)
         super().__init__(matches=matches, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert not match.marker, "A marker match should not be added to <Matches> object"
-        super()._add_match(match)
 
 
 class Markers(_BaseMatches):
@@ -1037,9 +1048,8 @@ class Markers(_BaseMatches):
     def __init__(self, matches: Iterable[Match] | None = None, input_string: str | None = None) -> None:
         super().__init__(matches=matches, input_string=input_string)
 
-    def _add_match(self, match: Match) -> None:
+    def _check_match(self, match: Match) -> None:
         assert match.marker, "A non-marker match should not be added to <Markers> object"
-        super()._add_match(match)
 
 
 class Match:
-- 
2.43.0


From 62e335ea279afeb5a8e5a12043cc285b9c4f9abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 09/38] fix: holes ignores the gap that ends before the start
 of the range

---
 rebulk/match.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 9f909e5..7d8b735 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -578,22 +578,6 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         """
         return max(len(self.input_string), self._max_end) if self.input_string else self._max_end
 
-    def _hole_start(self, position: int, ignore: Callable[[Match], Any] | None = None) -> int:
-        """
-        Retrieves the start of hole index from position.
-        :param position:
-        :type position:
-        :param ignore:
-        :type ignore:
-        :return:
-        :rtype:
-        """
-        for lindex in reversed(range(position)):
-            for starting in self.starting(lindex):
-                if not ignore or not ignore(starting):
-                    return lindex
-        return 0
-
     def _hole_end(self, position: int, ignore: Callable[[Match], Any] | None = None) -> int:
         """
         Retrieves the end of hole index from position.
@@ -667,9 +651,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         hole = False
         rindex = start
 
-        loop_start = self._hole_start(start, ignore)
-
-        for rindex in range(loop_start, end):
+        for rindex in range(start, end):
             current = []
             for at_index in self.at_index(rindex):
                 if not ignore or not ignore(at_index):
@@ -683,7 +665,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                     # Open a new hole match
                     hole = True
                     ret.append(
-                        Match(max(rindex, start), None, input_string=self.input_string, formatter=formatter)  # type: ignore[arg-type]
+                        Match(rindex, None, input_string=self.input_string, formatter=formatter)  # type: ignore[arg-type]
                     )
                 elif current and hole:
                     # Close current hole match
-- 
2.43.0


From 936e526b51f29166b9374fff267a745eaf25adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 10/38] fix: matches do not share their tags list with their
 pattern

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 7d8b735..dc9157b 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1059,7 +1059,7 @@ class Match:
         self.end = end
         self.name = name
         self._value = value
-        self.tags: list[str] = ensure_list(tags)
+        self.tags: list[str] = list(ensure_list(tags))
         self.marker = marker
         self.parent = parent
         self.input_string = input_string
-- 
2.43.0


From 5826dcb6485d9f9c67b15392aefb220c5a5c5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 11/38] fix: conflicting accepts a match that is not in the
 list

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index dc9157b..b1b0b77 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -708,7 +708,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if at_match not in ret:
                     ret.append(at_match)
 
-        ret.remove(match)
+        if match in ret:
+            ret.remove(match)
 
         return filter_index(ret, predicate, index)
 
-- 
2.43.0


From e49b99dbcda8e9fb314d7c5f243e35a78eb358fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 12/38] fix: to_dict does not extend the list value of a match

---
 rebulk/match.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index b1b0b77..51deaec 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -832,7 +832,8 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
                 if enforce_list and not isinstance(value, list):
                     ret[match.name] = [value]
                 else:
-                    ret[match.name] = value
+                    # copy a list value, other values of the name may be appended to it
+                    ret[match.name] = list(value) if isinstance(value, list) else value
         return ret
 
     def __len__(self) -> int:
-- 
2.43.0


From 5808243b8d42c099e7ee13e9e9f58c5eebc42a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:01 +0000
Subject: [PATCH 13/38] fix: toposort leaves the dependencies of the caller
 unmodified

---
 rebulk/toposort.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rebulk/toposort.py b/rebulk/toposort.py
index ae68583..0f4fa08 100644
--- a/rebulk/toposort.py
+++ b/rebulk/toposort.py
@@ -41,12 +41,9 @@ def toposort(data: dict[_T, set[_T]]) -> Iterator[set[_T]]:
     if len(data) == 0:
         return
 
-    # Copy the input so as to leave it unmodified.
-    data = data.copy()
+    # Copy the input so as to leave it unmodified, ignoring self dependencies.
+    data = {k: v - {k} for k, v in data.items()}
 
-    # Ignore self dependencies.
-    for k, v in data.items():
-        v.discard(k)
     # Find all items that don't depend on anything.
     extra_items_in_deps = reduce(set.union, data.values()) - set(data.keys())
     # Add empty dependences where needed.
-- 
2.43.0


From 0a6da67f605198b33bae78032477581945c6c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:20 +0000
Subject: [PATCH 14/38] fix: merging defaults leaves dicts of the caller and of
 other patterns unmodified

---
 rebulk/loose.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 5330e34..e6c382c 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -186,6 +186,8 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
-                set_defaults(value, kwargs[key])
+                merged = dict(kwargs[key])
+                set_defaults(value, merged)
+                kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From d1d06a51a60c2bb120d5465441cfc387fdd8c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 15/38] fix: removing a match prefers this very match to
 another one equal to it

---
 rebulk/match.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rebulk/match.py b/rebulk/match.py
index 51deaec..b3aa1c4 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1002,6 +1002,16 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
     def __repr__(self) -> str:
         return self._delegate.__repr__()
 
+    def remove(self, value: Match) -> None:
+        """
+        Remove this very match or, when it is not in the list, the first one equal to it
+        """
+        for index, match in enumerate(self._delegate):
+            if match is value:
+                del self[index]
+                return
+        super().remove(value)
+
     def insert(self, index: int, value: Match) -> None:
         last = index >= len(self._delegate)
         self._check_match(value)
-- 
2.43.0


From 4ce83868459109a98a471d78ca44519a0fcbe8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 16/38] fix: a match holding a tag twice is looked up once

---
 rebulk/match.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index b3aa1c4..92fe8f9 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -149,7 +149,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__tag_dict is None:
             self.__tag_dict = defaultdict(_BaseMatches._base)
             for match in self._delegate:
-                for tag in match.tags:
+                for tag in dict.fromkeys(match.tags):
                     _BaseMatches._base_add(self.__tag_dict[tag], match)
 
         return self.__tag_dict
@@ -180,7 +180,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._base_add(self._name_dict[match.name], (match))
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._base_add(self._tag_dict[tag], match)
         if self.__start_dict is not None:
             _BaseMatches._base_add(self._start_dict[match.start], match)
@@ -204,7 +204,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
         if self.__name_dict is not None and match.name:
             _BaseMatches._lookup_remove(self._name_dict, match.name, match)
         if self.__tag_dict is not None:
-            for tag in match.tags:
+            for tag in dict.fromkeys(match.tags):
                 _BaseMatches._lookup_remove(self._tag_dict, tag, match)
         if self.__start_dict is not None:
             _BaseMatches._lookup_remove(self._start_dict, match.start, match)
-- 
2.43.0


From 88bce52fb9af76f681358706afe79b8c1692e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 17/38] fix: RemoveTags removes a tag held twice

---
 rebulk/rules.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 484af10..8cf89ab 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -237,13 +237,9 @@ class RemoveTags(Consequence):
         if is_iterable(removed):
             removed = list(removed)
             for match in removed:
-                for tag in self.tags:
-                    if tag in match.tags:
-                        match.tags.remove(tag)
+                match.tags[:] = [tag for tag in match.tags if tag not in self.tags]
         elif removed:
-            for tag in self.tags:
-                if tag in removed.tags:
-                    removed.tags.remove(tag)
+            removed.tags[:] = [tag for tag in removed.tags if tag not in self.tags]
         if removed:
             self.append.then(matches, removed, context)
 
-- 
2.43.0


From 7973c9ef4d739652bedb0408e5e42947446f740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 18/38] fix: AppendMatch leaves the name of a match already in
 the list

---
 rebulk/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 8cf89ab..1e1a277 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -170,9 +170,9 @@ class AppendMatch(Consequence):
                     matches.append(match)
                     ret.append(match)
             return ret
-        if self.match_name:
-            when_response.name = self.match_name
         if when_response not in matches:
+            if self.match_name:
+                when_response.name = self.match_name
             matches.append(when_response)
             return when_response
         return None
-- 
2.43.0


From 2b4e7f92e154badaf05db88c4ff519a26b2f4e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:07 +0000
Subject: [PATCH 19/38] fix: rules of one class at several priorities keep
 their registration order

---
 rebulk/rules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 1e1a277..02e2054 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -310,10 +310,11 @@ class Rules(list[CustomRule]):
         :rtype:
         """
         ret: list[tuple[CustomRule, Any]] = []
+        positions = {id(rule): position for position, rule in enumerate(self)}
         for priority, priority_rules in groupby(sorted(self), lambda rule: rule.priority):
             sorted_rules = toposort_rules(list(priority_rules))  # Group by dependency graph toposort
             for rules_group in sorted_rules:
-                sorted_group = sorted(rules_group, key=self.index)  # Sort rules group based on initial ordering.
+                sorted_group = sorted(rules_group, key=lambda rule: positions[id(rule)])  # Sort rules group based on initial ordering.
                 group_log_level: int | None = None
                 for rule in sorted_group:
                     if group_log_level is None or group_log_level < rule.log_level:
-- 
2.43.0


From 6ed2baeeb4d9e6bd7540b1a031b4983296429c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 20/38] fix: a rule given as dependency at another priority is
 not executed again

---
 rebulk/rules.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 02e2054..6488771 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -375,8 +375,9 @@ def toposort_rules(rules: list[CustomRule]) -> Iterator[set[CustomRule]]:
         dependencies: set[CustomRule] = set()
         if rule_dependencies:
             for dependency in rule_dependencies:
-                if inspect.isclass(dependency):
-                    dependency = class_dict.get(dependency)
+                if not inspect.isclass(dependency):
+                    dependency = dependency.__class__
+                dependency = class_dict.get(dependency)
                 if dependency:
                     dependencies.add(dependency)
         graph[rule] = dependencies
-- 
2.43.0


From c1aeecb04d5d2c9cf26af0be41304d7d162e9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 21/38] fix: callbacks get their keyword-only arguments, and no
 argument twice

---
 rebulk/loose.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index e6c382c..6b88427 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -94,8 +94,14 @@ def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs:
     :return: (args, kwargs) matching the function signature
     :rtype: tuple
     """
-    call_kwarg = kwargs if argspec.varkw else {k: kwargs[k] for k in kwargs if k in argspec.args}
-    call_args = args if argspec.varargs else args[: len(argspec.args) - (1 if constructor else 0)]
+    names = argspec.args[1 if constructor else 0 :]
+    call_args = args if argspec.varargs else args[: len(names)]
+    filled = names[: len(call_args)]
+    call_kwarg = {
+        k: kwargs[k]
+        for k in kwargs
+        if k not in filled and (argspec.varkw or k in names or k in argspec.kwonlyargs)
+    }
     return call_args, call_kwarg
 
 
-- 
2.43.0


From eacba6354ffb0750c8d2c4611667382398a7c964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 22/38] fix: methods and callable objects work as callbacks

---
 rebulk/loose.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 6b88427..61db8a0 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -5,7 +5,8 @@ Various utilities functions
 
 from __future__ import annotations
 
-from inspect import getfullargspec, isclass
+from functools import partial
+from inspect import getfullargspec, isclass, ismethod, isroutine
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -59,7 +60,9 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    return argspec_args(argspec, False, *args, **kwargs)
+    # methods and callable objects have a first argument that is already bound
+    bound = ismethod(callable_) or not (isroutine(callable_) or isinstance(callable_, partial))
+    return argspec_args(argspec, bound, *args, **kwargs)
 
 
 def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
-- 
2.43.0


From d8b8a1c988dd85e2166aa6c032ea3b88dd47e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:16 +0000
Subject: [PATCH 23/38] fix: abbreviations leave the pattern dict of the caller
 unmodified

---
 rebulk/pattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 58c352f..79b22f4 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -480,6 +480,7 @@ class RePattern(Pattern):
                 pattern = call(re.compile, pattern, **self._kwargs)
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
+                    pattern = dict(pattern)
                     for key, replacement in self.abbreviations:
                         pattern["pattern"] = pattern["pattern"].replace(key, replacement)
                 pattern = re.compile(**pattern)
-- 
2.43.0


From 0a47a3bedfef9f8a6206d12a9b553017cfb4ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 24/38] fix: functional pattern leaves the dict returned by its
 function unmodified

---
 rebulk/pattern.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 79b22f4..9843d86 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -565,12 +565,10 @@ class FunctionalPattern(Pattern):
                 args_iterable = ret
             for args in args_iterable:
                 if isinstance(args, dict):
-                    options = args
+                    options = self._match_kwargs.copy()
+                    options.update(args)
                     options.pop("input_string", None)
                     options.pop("pattern", None)
-                    if self._match_kwargs:
-                        options = self._match_kwargs.copy()
-                        options.update(args)
                     match = Match(pattern=self, input_string=input_string, **options)
                     if match:
                         yield match
-- 
2.43.0


From 802cad6156a184f6e068be4c28ff54287fd8c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 25/38] fix: a default dict may have an entry called clear

---
 rebulk/loose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 61db8a0..2c55dae 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -190,13 +190,20 @@ def set_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: boo
     """
     if "clear" in defaults and defaults.pop("clear"):
         kwargs.clear()
+    _merge_defaults(defaults, kwargs, override)
+
+
+def _merge_defaults(defaults: dict[str, Any], kwargs: dict[str, Any], override: bool = False) -> None:
+    """
+    Merge defaults dict into kwargs dict, concatenating lists and merging nested dicts into new objects
+    """
     for key, value in defaults.items():
         if key in kwargs:
             if isinstance(value, list) and isinstance(kwargs[key], list):
                 kwargs[key] = list(value) + kwargs[key]
             elif isinstance(value, dict) and isinstance(kwargs[key], dict):
                 merged = dict(kwargs[key])
-                set_defaults(value, merged)
+                _merge_defaults(value, merged)
                 kwargs[key] = merged
         if key not in kwargs or override:
             kwargs[key] = value
-- 
2.43.0


From 25348140d6f61957da20c308f0f15d6aba45d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 26/38] fix: chain builders use the default values they
 inherit, not copies of them

---
 rebulk/builder.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rebulk/builder.py b/rebulk/builder.py
index 3554d7a..651bf3b 100644
--- a/rebulk/builder.py
+++ b/rebulk/builder.py
@@ -7,7 +7,6 @@ from __future__ import annotations
 
 from abc import ABCMeta, abstractmethod
 from contextlib import contextmanager
-from copy import deepcopy
 from logging import getLogger
 from typing import TYPE_CHECKING, Any, TypeVar
 
@@ -292,11 +291,12 @@ class ChainBuilder(PatternFactory):
         self._chain = chain
 
     def _inherit_defaults(self, source: PatternFactory) -> None:
-        self._defaults = deepcopy(source._defaults)
-        self._regex_defaults = deepcopy(source._regex_defaults)
-        self._functional_defaults = deepcopy(source._functional_defaults)
-        self._string_defaults = deepcopy(source._string_defaults)
-        self._chain_defaults = deepcopy(source._chain_defaults)
+        # values are shared: merging defaults never modifies them
+        self._defaults = dict(source._defaults)
+        self._regex_defaults = dict(source._regex_defaults)
+        self._functional_defaults = dict(source._functional_defaults)
+        self._string_defaults = dict(source._string_defaults)
+        self._chain_defaults = dict(source._chain_defaults)
         self._keys = dict(source._keys)
 
     def _add(self, pattern: Any) -> ChainPart:
-- 
2.43.0


From c968b8a6348d7cdb51e691e2fd98a43b3abe0dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 27/38] fix: callbacks taking any keyword argument get only the
 ones offered

---
 rebulk/loose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 2c55dae..98d628e 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -42,7 +42,7 @@ def call(function: Any, *args: Any, **kwargs: Any) -> Any:
     :rtype: object
     """
     func = constructor_args if isclass(function) else function_args
-    call_args, call_kwargs = func(function, *args, ignore_unused=True, **kwargs)  # @see #20
+    call_args, call_kwargs = func(function, *args, **kwargs)
     return function(*call_args, **call_kwargs)
 
 
-- 
2.43.0


From 516876f8d5d9d90efb95b936ebdccc234c06b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 28/38] fix: keyword arguments offered to a callback may have
 any name

---
 rebulk/loose.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index 98d628e..f5f97b4 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -27,7 +27,7 @@ def _constructor(class_: Any) -> Any:
     return class_
 
 
-def call(function: Any, *args: Any, **kwargs: Any) -> Any:
+def call(function: Any, /, *args: Any, **kwargs: Any) -> Any:
     """
     Call a function or constructor with given args and kwargs after removing args and kwargs that doesn't match
     function or constructor signature
@@ -46,7 +46,7 @@ def call(function: Any, *args: Any, **kwargs: Any) -> Any:
     return function(*call_args, **call_kwargs)
 
 
-def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def function_args(callable_: Any, /, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
     Return (args, kwargs) matching the function signature
 
@@ -65,7 +65,7 @@ def function_args(callable_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     return argspec_args(argspec, bound, *args, **kwargs)
 
 
-def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def constructor_args(class_: Any, /, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
     Return (args, kwargs) matching the function signature
 
@@ -82,7 +82,7 @@ def constructor_args(class_: Any, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     return argspec_args(argspec, True, *args, **kwargs)
 
 
-def argspec_args(argspec: FullArgSpec, constructor: bool, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
+def argspec_args(argspec: FullArgSpec, constructor: bool, /, *args: Any, **kwargs: Any) -> tuple[Any, Any]:
     """
     Return (args, kwargs) matching the argspec object
 
-- 
2.43.0


From 3c2f9b29472caf093eca66588e049ece127147e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 29/38] fix: a regex marker may have groups

---
 rebulk/match.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 92fe8f9..915fa32 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -854,7 +854,7 @@ class _BaseMatches(MutableSequence):  # type: ignore[type-arg]
             return named[0].value if named else None
         ret = self._delegate[index]
         if isinstance(ret, list):
-            return Markers(ret) if isinstance(self, Markers) else Matches(ret)
+            return type(self)(ret)
         return ret
 
     def all(self, key: Key[T]) -> list[T]:
@@ -1046,6 +1046,15 @@ class Markers(_BaseMatches):
         assert match.marker, "A non-marker match should not be added to <Markers> object"
 
 
+class _Children(Matches):
+    """
+    A custom list[Match] containing the children of a match, that are markers when it is a marker.
+    """
+
+    def _check_match(self, match: Match) -> None:
+        pass
+
+
 class Match:
     """
     Object storing values related to a single match
@@ -1099,7 +1108,7 @@ class Match:
         Children matches.
         """
         if self._children is None:
-            self._children = Matches(None, self.input_string)
+            self._children = _Children(None, self.input_string)
         return self._children
 
     @children.setter
-- 
2.43.0


From c87e07a41918834bea6f798e942972714aa1db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 30/38] fix: regex module keeps ignoring the pattern options it
 does not know

---
 rebulk/pattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index 9843d86..aa07dcc 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -477,7 +477,8 @@ class RePattern(Pattern):
                 if self.abbreviations and pattern:
                     for key, replacement in self.abbreviations:
                         pattern = pattern.replace(key, replacement)
-                pattern = call(re.compile, pattern, **self._kwargs)
+                # regex module accepts any keyword argument, and ignore_unused to ignore the ones it does not know
+                pattern = call(re.compile, pattern, **{"ignore_unused": True, **self._kwargs})
             elif isinstance(pattern, dict):
                 if self.abbreviations and "pattern" in pattern:
                     pattern = dict(pattern)
-- 
2.43.0


From 10fa3309f23e89f98fdc50cf91d957b68db9a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 31/38] fix: builtin methods and partials of methods are called
 with the arguments their signature accepts

---
 rebulk/loose.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rebulk/loose.py b/rebulk/loose.py
index f5f97b4..d188674 100644
--- a/rebulk/loose.py
+++ b/rebulk/loose.py
@@ -6,7 +6,7 @@ Various utilities functions
 from __future__ import annotations
 
 from functools import partial
-from inspect import getfullargspec, isclass, ismethod, isroutine
+from inspect import getfullargspec, isclass, ismodule, isroutine
 from typing import TYPE_CHECKING, Any, cast
 
 from .utils import is_iterable
@@ -60,8 +60,12 @@ def function_args(callable_: Any, /, *args: Any, **kwargs: Any) -> tuple[Any, An
     :rtype: tuple
     """
     argspec = getfullargspec(callable_)
-    # methods and callable objects have a first argument that is already bound
-    bound = ismethod(callable_) or not (isroutine(callable_) or isinstance(callable_, partial))
+    # methods, callable objects and partials of those have a first argument that is already bound
+    function = callable_
+    while isinstance(function, partial):
+        function = function.func
+    owner = getattr(function, "__self__", None)  # the module for a builtin function
+    bound = not isroutine(function) or not (owner is None or ismodule(owner))
     return argspec_args(argspec, bound, *args, **kwargs)
 
 
-- 
2.43.0


From c09bec6d8a51a67004a7e729994f8a9c87cd7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 32/38] fix: a rule created with a log level could not be
 executed

---
 rebulk/rules.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 6488771..1031351 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -77,7 +77,9 @@ class CustomRule(Condition, Consequence, metaclass=ABCMeta):
     def __init__(self, log_level: int | None = None) -> None:
         self.defined_at = debug.defined_at()
         self.log_level: int
-        if log_level is None and not hasattr(self, "log_level"):
+        if log_level is not None:
+            self.log_level = log_level
+        elif not hasattr(self, "log_level"):
             self.log_level = debug.LOG_LEVEL
 
     def enabled(self, context: dict[str, Any] | None) -> bool:
-- 
2.43.0


From 5b9bbe30a6eafeeeb4f28eb8347b7fef21deed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 33/38] fix: functions and other members of a rules module were
 loaded as rules

---
 rebulk/rules.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rebulk/rules.py b/rebulk/rules.py
index 1031351..9c0f743 100644
--- a/rebulk/rules.py
+++ b/rebulk/rules.py
@@ -283,7 +283,12 @@ class Rules(list[CustomRule]):
         """
 
         def predicate(member: Any) -> Any:
-            return hasattr(member, "__module__") and member.__module__ == module.__name__ and inspect.isclass
+            return (
+                inspect.isclass(member)
+                and member.__module__ == module.__name__
+                and issubclass(member, CustomRule)
+                and not inspect.isabstract(member)
+            )
 
         for _name, obj in inspect.getmembers(module, predicate):
             self.load_class(obj)
-- 
2.43.0


From 34aa4a4c9295eed011bf2f2fe8c4b9450aca3624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:35 +0000
Subject: [PATCH 34/38] fix: find the initiator above an empty parent

---
 rebulk/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/match.py b/rebulk/match.py
index 915fa32..ec51f08 100644
--- a/rebulk/match.py
+++ b/rebulk/match.py
@@ -1226,7 +1226,7 @@ class Match:
         :rtype:
         """
         match = self
-        while match.parent:
+        while match.parent is not None:
             match = match.parent
         return match
 
-- 
2.43.0


From 600ed4a0307c3984e342f52513f5d8b00015e45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 35/38] fix: shift the raw span of chain parts to the whole
 text

---
 rebulk/chain.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 6379330..8180b71 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -189,6 +189,10 @@ class Chain(Pattern):
                 chain_part_match.input_string = input_string
                 chain_part_match.end += offset
                 chain_part_match.start += offset
+                if chain_part_match._raw_end is not None:
+                    chain_part_match.raw_end += offset
+                if chain_part_match._raw_start is not None:
+                    chain_part_match.raw_start += offset
             if chain_part_match.children:
                 Chain._fix_matches_offset(chain_part_match.children, input_string, offset)
 
-- 
2.43.0


From c7bed65cc9f7cdbaa8313dd5007e22c5922402d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:53 +0000
Subject: [PATCH 36/38] fix: keep the formatter given by a function or a chain
 part

---
 rebulk/pattern.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rebulk/pattern.py b/rebulk/pattern.py
index aa07dcc..432e8bd 100644
--- a/rebulk/pattern.py
+++ b/rebulk/pattern.py
@@ -286,7 +286,10 @@ class Pattern(BasePattern, metaclass=ABCMeta):
         included = self._should_include_children if child else self._should_include_parent
         if included or self.format_all:
             keys = self._match_config_property_keys(match, child=child)
-            match.formatter = get_first_defined(self.formatters, keys, self._default_formatter)
+            formatter = get_first_defined(self.formatters, keys, self._default_formatter)
+            # the library default does not replace a formatter the match was given (by a function or a chain part)
+            if formatter is not default_formatter or match.formatter is None:
+                match.formatter = formatter
 
     def _process_match_validator(self, match: Match, child: bool = False) -> bool:
         """
-- 
2.43.0


From 84c5e8c0fdafb9720ccd7b93e201c45814b03f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:29 +0000
Subject: [PATCH 37/38] fix: end a shortened chain match with the children left

The end of the last child was taken, but a group listed before it may end after it.
---
 rebulk/chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index 8180b71..d2a33fd 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -151,7 +151,7 @@ class Chain(Pattern):
                     last_matches = last_pattern_groups[index]
                     for last_match in last_matches:
                         match.children.remove(last_match)
-                    match.end = match.children[-1].end if match.children else match.start
+                    match.end = max((child.end for child in match.children), default=match.start)
                     ret = super()._process_match(match, match_index, child=child)
                     if ret:
                         return True
-- 
2.43.0


From 7b12562ce65931a4d096e00ef6d64fda24b42a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:13 +0000
Subject: [PATCH 38/38] fix: judge and shorten chains whose parts are markers

---
 rebulk/chain.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rebulk/chain.py b/rebulk/chain.py
index d2a33fd..b6a1ee1 100644
--- a/rebulk/chain.py
+++ b/rebulk/chain.py
@@ -9,7 +9,7 @@ import itertools
 from typing import TYPE_CHECKING, Any, Literal, cast, overload
 
 from .loose import call
-from .match import Match, Matches
+from .match import Match, _Children
 from .pattern import BasePattern, Pattern, filter_match_kwargs
 from .remodule import re
 
@@ -17,6 +17,7 @@ if TYPE_CHECKING:
     from collections.abc import Callable, Iterable, Iterator
 
     from .builder import ChainBuilder
+    from .match import Matches
 
 
 class _InvalidChainException(Exception):
@@ -144,7 +145,7 @@ class Chain(Pattern):
             )
 
             if last_pattern_groups:
-                original_children = Matches(match.children)
+                original_children = _Children(match.children)
                 original_end = match.end
 
                 for index in reversed(list(last_pattern_groups)):
@@ -180,7 +181,7 @@ class Chain(Pattern):
         return match
 
     def _chain_breaker_eval(self, matches: list[Match]) -> bool:
-        return not self.chain_breaker or not self.chain_breaker(Matches(matches))
+        return not self.chain_breaker or not self.chain_breaker(_Children(matches))
 
     @staticmethod
     def _fix_matches_offset(chain_part_matches: Iterable[Match], input_string: str, offset: int) -> None:
-- 
2.43.0

