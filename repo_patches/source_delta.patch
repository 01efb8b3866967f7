From 53d5961f7d512ae794a4439d4b3b809e4d7d2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 01/53] fix: exact size computation in choice_from_index for
 bytes and strings

The logarithm of an index just below an exact power of the alphabet size is
commonly rounded up to that power's exponent, so e.g. the index of b'\xff' * 7
was mapped to an 8-byte value with an out-of-range element and crashed.
---
 .../src/hypothesis/internal/conjecture/choice.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 9cdd278..7afc793 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -218,7 +218,10 @@ def _index_to_size(index: int, alphabet_size: int) -> int:
     # if this computation is close enough that it could have been affected by
     # floating point errors, use a much slower integer-only logarithm instead,
     # which is guaranteed to be precise.
-    if 0 < math.ceil(size) - size < 1e-7:
+    #
+    # The error can go in either direction: just below an exact power the computed
+    # logarithm is commonly rounded to exactly that power's exponent (or above).
+    if abs(size - round(size)) < 1e-7:
         s = 0
         while total >= alphabet_size:
             total //= alphabet_size
-- 
2.43.0


From ab7a918238895414eeb4c9daccfee0ff25fe26d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 02/53] fix: LazySequenceCopy.pop returns an assigned None

Popping an index to which None had been assigned returned the element of the
underlying sequence instead.
---
 .../src/hypothesis/internal/conjecture/junkdrawer.py        | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 800c2f2..4ecf414 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -204,11 +204,9 @@ class LazySequenceCopy(Generic[T]):
             raise IndexError("Cannot pop from empty list")
         i = self.__underlying_index(i)
 
-        v = None
+        v = self.__values[i]
         if self.__mask is not None:
-            v = self.__mask.pop(i, None)
-        if v is None:
-            v = self.__values[i]
+            v = self.__mask.pop(i, v)
 
         if self.__popped_indices is None:
             self.__popped_indices = SortedList()
-- 
2.43.0


From c7e880da850efa8753abcaa472af96a2206b02e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 03/53] fix: IntList equality does not depend on how the list
 is stored

An IntList which had held a value too large for an array compared unequal to
an IntList with the same contents.
---
 .../src/hypothesis/internal/conjecture/junkdrawer.py         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
index 4ecf414..6139020 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/junkdrawer.py
@@ -130,14 +130,15 @@ class IntList(Sequence[int]):
             return True
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying == other.__underlying
+        # the storage types may differ (list and array never compare equal)
+        return list(self.__underlying) == list(other.__underlying)
 
     def __ne__(self, other: object) -> bool:
         if self is other:
             return False
         if not isinstance(other, IntList):
             return NotImplemented
-        return self.__underlying != other.__underlying
+        return list(self.__underlying) != list(other.__underlying)
 
     def append(self, n: int) -> None:
         i = len(self)
-- 
2.43.0


From ad89e4088fd4f679f5cae086c3ae05869a53cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:36 +0000
Subject: [PATCH 04/53] fix: read GitHub artifacts which have no directory
 entries

Entries for directories are optional in zip files and depend on the tool which
wrote them; fetch crashed with KeyError if there was none.
---
 hypothesis-python/src/hypothesis/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 8442185..7b94d3b 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -776,12 +776,15 @@ class GitHubArtifactDatabase(ExampleDatabase):
                 for filename in namelist:
                     fileinfo = zf.getinfo(filename)
                     if fileinfo.is_dir():
-                        self._access_cache[PurePath(filename)] = set()
+                        self._access_cache.setdefault(PurePath(filename), set())
                     else:
                         # Get the keypath from the filename
                         keypath = PurePath(filename).parent
                         # Add the file to the keypath
-                        self._access_cache[keypath].add(PurePath(filename))
+                        # (zip files need not have entries for directories)
+                        self._access_cache.setdefault(keypath, set()).add(
+                            PurePath(filename)
+                        )
         except BadZipFile:
             warnings.warn(
                 "The downloaded artifact from GitHub is invalid. "
-- 
2.43.0


From d0b51b23c2bd966c1fe2ae976270e9234cfb1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:32 +0000
Subject: [PATCH 05/53] fix: DirectoryBasedExampleDatabase.fetch tolerates
 unreadable and vanishing keys

The directory of a key could be removed by a concurrent move() between
is_dir() and listdir(), and is_dir() itself raises for an inaccessible path.
---
 hypothesis-python/src/hypothesis/database.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 7b94d3b..d05cacb 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -358,9 +358,13 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
 
     def fetch(self, key: bytes) -> Iterable[bytes]:
         kp = self._key_path(key)
-        if not kp.is_dir():
+        try:
+            paths = os.listdir(kp)
+        except OSError:
+            # Either there is no such key, or its directory is not readable, or it
+            # was removed by another process at any time up to now.
             return
-        for path in os.listdir(kp):
+        for path in paths:
             try:
                 yield (kp / path).read_bytes()
             except OSError:
-- 
2.43.0


From e7fe6174e7ab5de292788abec6176ef5d04ea606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:47 +0000
Subject: [PATCH 06/53] fix: DirectoryBasedExampleDatabase.save works across
 filesystems

If the database was not on the same filesystem as the default temporary
directory, renaming the temporary file failed with EXDEV and every value was
silently dropped.  Fall back to a temporary file in the database directory.
A failed write also left its temporary file (and file descriptor) behind.
---
 hypothesis-python/src/hypothesis/database.py | 35 ++++++++++++++------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index d05cacb..cbed36d 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -9,6 +9,7 @@
 # obtain one at https://mozilla.org/MPL/2.0/.
 
 import abc
+import errno
 import json
 import os
 import struct
@@ -388,18 +389,30 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 # directory, and only move to the final path after. This avoids
                 # any intermediate state where the file is created (and empty)
                 # but not yet written to.
-                fd, tmpname = tempfile.mkstemp()
-                tmppath = Path(tmpname)
-                os.write(fd, value)
-                os.close(fd)
                 try:
-                    tmppath.rename(path)
-                except OSError:  # pragma: no cover
-                    tmppath.unlink()
-                assert not tmppath.exists()
+                    self._write_and_rename(path, value, tempdir=None)
+                except OSError as err:
+                    if err.errno != errno.EXDEV:
+                        raise
+                    # The default temporary directory is on another filesystem,
+                    # so use one which can't be.
+                    self._write_and_rename(path, value, tempdir=self.path)
         except OSError:  # pragma: no cover
             pass
 
+    def _write_and_rename(
+        self, path: Path, value: bytes, *, tempdir: Optional[Path]
+    ) -> None:
+        fd, tmpname = tempfile.mkstemp(dir=tempdir)
+        tmppath = Path(tmpname)
+        try:
+            with os.fdopen(fd, "wb") as f:
+                f.write(value)
+            tmppath.rename(path)
+        except OSError:
+            tmppath.unlink()
+            raise
+
     def move(self, src: bytes, dest: bytes, value: bytes) -> None:
         if src == dest:
             self.save(src, value)
@@ -504,7 +517,7 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 k1 = hash_to_key.get(src_path.parent.name)
                 k2 = hash_to_key.get(dest_path.parent.name)
 
-                if k1 is None or k2 is None:  # pragma: no cover
+                if k2 is None:  # pragma: no cover
                     return
 
                 try:
@@ -512,7 +525,9 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
                 except OSError:  # pragma: no cover
                     return
 
-                _broadcast_change(("delete", (k1, value)))
+                # k1 is None if the value was moved into place from a temporary file
+                if k1 is not None:
+                    _broadcast_change(("delete", (k1, value)))
                 _broadcast_change(("save", (k2, value)))
 
         # If we add a listener to a DirectoryBasedExampleDatabase whose database
-- 
2.43.0


From fd956b8cb6656f161a8710cd6fb58762bebeb7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 07/53] fix: DirectoryBasedExampleDatabase.save survives a
 concurrent move

os.renames() in move() removes the directory of a key with no more values.  If
another process was just saving a value for that key, the value was lost.
---
 hypothesis-python/src/hypothesis/database.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index cbed36d..095b897 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -382,7 +382,6 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
         # already checked for permissions, but there can still be other issues,
         # e.g. the disk is full, or permissions might have been changed.
         try:
-            key_path.mkdir(exist_ok=True, parents=True)
             path = self._value_path(key, value)
             if not path.exists():
                 # to mimic an atomic write, create and write in a temporary
@@ -403,12 +402,22 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
     def _write_and_rename(
         self, path: Path, value: bytes, *, tempdir: Optional[Path]
     ) -> None:
+        path.parent.mkdir(exist_ok=True, parents=True)
         fd, tmpname = tempfile.mkstemp(dir=tempdir)
         tmppath = Path(tmpname)
         try:
             with os.fdopen(fd, "wb") as f:
                 f.write(value)
-            tmppath.rename(path)
+            for _ in range(10):
+                try:
+                    tmppath.rename(path)
+                    break
+                except FileNotFoundError:
+                    # A concurrent move() of the last value in the same key removes
+                    # the directory, even if we have just created it.
+                    path.parent.mkdir(exist_ok=True, parents=True)
+            else:
+                raise FileNotFoundError(path)
         except OSError:
             tmppath.unlink()
             raise
-- 
2.43.0


From a03d2c187d43c3f3ae0c3cac26d235b0d857f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 08/53] fix: DirectoryBasedExampleDatabase.move tolerates an
 inaccessible database

---
 hypothesis-python/src/hypothesis/database.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/database.py b/hypothesis-python/src/hypothesis/database.py
index 095b897..349034e 100644
--- a/hypothesis-python/src/hypothesis/database.py
+++ b/hypothesis-python/src/hypothesis/database.py
@@ -429,12 +429,12 @@ class DirectoryBasedExampleDatabase(ExampleDatabase):
 
         src_path = self._value_path(src, value)
         dest_path = self._value_path(dest, value)
-        # if the dest key path does not exist, os.renames will create it for us,
-        # and we will never track its creation in the meta keys entry. Do so now.
-        if not self._key_path(dest).exists():
-            self.save(self._metakeys_name, dest)
-
         try:
+            # if the dest key path does not exist, os.renames will create it for us,
+            # and we will never track its creation in the meta keys entry. Do so now.
+            if not self._key_path(dest).exists():
+                self.save(self._metakeys_name, dest)
+
             os.renames(src_path, dest_path)
         except OSError:
             self.delete(src, value)
-- 
2.43.0


From 924c4a39a568c1bbd2726cba307334dae85e97be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:35 +0000
Subject: [PATCH 09/53] fix: keep choice_from_index fast for huge min_size

The exact computation for sizes near a power of the alphabet size was quadratic
in the size, and so effectively hung for strategies with a huge min_size.
---
 .../hypothesis/internal/conjecture/choice.py   | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
index 7afc793..64ed431 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/choice.py
@@ -210,23 +210,17 @@ def _index_to_size(index: int, alphabet_size: int) -> int:
     #   size = math.floor(math.log(index * (alphabet_size - 1) + 1, alphabet_size))
     # which is fast, but suffers from float precision errors. As performance is
     # relatively critical here, we'll use this formula by default, but fall back to
-    # a much slower integer-only logarithm when the calculation is too close for
+    # a slower integer-only computation when the calculation is too close for
     # comfort.
     total = index * (alphabet_size - 1) + 1
     size = math.log(total, alphabet_size)
 
     # if this computation is close enough that it could have been affected by
-    # floating point errors, use a much slower integer-only logarithm instead,
-    # which is guaranteed to be precise.
-    #
-    # The error can go in either direction: just below an exact power the computed
-    # logarithm is commonly rounded to exactly that power's exponent (or above).
-    if abs(size - round(size)) < 1e-7:
-        s = 0
-        while total >= alphabet_size:
-            total //= alphabet_size
-            s += 1
-        return s
+    # floating point errors - in either direction - use a slower integer-only
+    # comparison with the nearby power, which is guaranteed to be precise.
+    nearest = round(size)
+    if abs(size - nearest) < 1e-7:
+        return nearest if alphabet_size**nearest <= total else nearest - 1
     return math.floor(size)
 
 
-- 
2.43.0


From 6c96639a99dc48f1d22db54741276aa6a6e08b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 10/53] fix: floats(allow_subnormal=False) with subnormal
 bounds

Such bounds were themselves generated, and bounds with only subnormal values
between them crashed with an IndexError instead of InvalidArgument.
---
 .../src/hypothesis/strategies/_internal/numbers.py   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index 59bf66e..d67b1cf 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -479,6 +479,18 @@ def floats(
                 f"excludes values above float{width}'s "
                 f"smallest negative normal {-smallest_normal}"
             )
+    else:
+        # Subnormal bounds are not themselves allowed, so use the nearest value which is.
+        if min_value is not None and 0 < abs(min_value) < smallest_normal:
+            min_value = smallest_normal if min_value > 0 else -0.0
+        if max_value is not None and 0 < abs(max_value) < smallest_normal:
+            max_value = 0.0 if max_value > 0 else -smallest_normal
+        if min_value is not None and max_value is not None and min_value > max_value:
+            raise InvalidArgument(
+                f"There are only subnormal {width}-bit floating-point values "
+                f"between min_value={min_arg!r} and max_value={max_arg!r}, "
+                f"but {allow_subnormal=}"
+            )
 
     if min_value is None:
         min_value = float("-inf")
-- 
2.43.0


From 068822fbfa5d6a4d4952eebd6d370ae627c736f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 11/53] fix: exact bounds for decimals(places=...)

Bounds with many more digits than places were rounded before taking the ceiling
or floor, which could include a value just outside the bounds.
---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 8e35eba..ee5ca85 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1718,9 +1718,9 @@ def decimals(
         factor = Decimal(10) ** -places
         min_num, max_num = None, None
         if min_value is not None:
-            min_num = ceil(ctx(min_value).divide(min_value, factor))
+            min_num = ceil(Fraction(min_value) * 10**places)
         if max_value is not None:
-            max_num = floor(ctx(max_value).divide(max_value, factor))
+            max_num = floor(Fraction(max_value) * 10**places)
         if min_num is not None and max_num is not None and min_num > max_num:
             raise InvalidArgument(
                 f"There are no decimals with {places} places between "
-- 
2.43.0


From f9453b75facc21bb3acfbb0889a3ac349a3ee789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 12/53] fix: decimals(x, allow_infinity=True) never generates
 the infinity beyond its bound

---
 hypothesis-python/src/hypothesis/strategies/_internal/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index ee5ca85..1d189ef 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1743,9 +1743,9 @@ def decimals(
     special: list[Decimal] = []
     if allow_nan or (allow_nan is None and (None in (min_value, max_value))):
         special.extend(map(Decimal, ("NaN", "-NaN", "sNaN", "-sNaN")))
-    if allow_infinity or (allow_infinity is None and max_value is None):
+    if allow_infinity is not False and max_value is None:
         special.append(Decimal("Infinity"))
-    if allow_infinity or (allow_infinity is None and min_value is None):
+    if allow_infinity is not False and min_value is None:
         special.append(Decimal("-Infinity"))
     return strat | (sampled_from(special) if special else nothing())
 
-- 
2.43.0


From 10a948a32787ddb71817ad0a8de2242185a324c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 13/53] fix: decimals() does not round to a value outside its
 bounds

E.g. decimals('0.16666666666', '0.16666666667') generated Decimal('0.17').
---
 .../src/hypothesis/strategies/_internal/core.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 1d189ef..319dab5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -1734,9 +1734,20 @@ def decimals(
                 ceil(math.log10(abs(val.numerator) or 1) + math.log10(val.denominator))
                 + 1
             )
-            return Context(prec=precision or 1).divide(
-                Decimal(val.numerator), val.denominator
-            )
+            num = Decimal(val.numerator)
+            result = Context(prec=precision or 1).divide(num, val.denominator)
+            if (min_value is not None and result < min_value) or (
+                max_value is not None and result > max_value
+            ):
+                # We rounded to a value outside the bounds.  This can't happen if the
+                # bounds are exactly representable, because rounding is monotonic.
+                precision = max(
+                    len(bound.as_tuple().digits)
+                    for bound in (min_value, max_value)
+                    if bound is not None
+                )
+                result = Context(prec=precision).divide(num, val.denominator)
+            return result
 
         strat = fractions(min_value, max_value).map(fraction_to_decimal)
     # Compose with sampled_from for infinities and NaNs as appropriate
-- 
2.43.0


From 547784f70877fc7a41acfe6ad67e7a2be39c13f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:48 +0000
Subject: [PATCH 14/53] fix: complex_numbers() at the limits of the component
 width

Magnitudes which overflow a component raised OverflowError, maximum magnitudes
which round up to a representable component raised InvalidArgument for a NaN
bound, and allow_subnormal=False failed near the smallest normal component.
---
 .../hypothesis/strategies/_internal/core.py   | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 319dab5..0d905a0 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -86,7 +86,7 @@ from hypothesis.internal.conjecture.utils import (
     identity,
 )
 from hypothesis.internal.entropy import get_seeder_and_restorer
-from hypothesis.internal.floats import float_of
+from hypothesis.internal.floats import float_of, next_down, width_smallest_normals
 from hypothesis.internal.reflection import (
     define_function_signature,
     get_pretty_function_description,
@@ -2046,6 +2046,23 @@ def complex_numbers(
             # https://numpy.org/doc/stable/reference/arrays.scalars.html#complex-floating-point-types
         )
     component_width = width // 2
+    largest = next_down(math.inf, component_width)
+    smallest_normal = width_smallest_normals[component_width]
+    if (min_magnitude > largest and not allow_infinity) or (
+        min_magnitude > 0
+        and not allow_subnormal
+        and max_magnitude is not None
+        and max_magnitude < smallest_normal
+    ):
+        raise InvalidArgument(
+            f"There are no {width}-bit complex numbers with components between "
+            f"{min_magnitude=} and {max_magnitude=}, with {allow_subnormal=}"
+        )
+
+    def to_component(x):
+        # Downcast a non-negative float, without overflowing
+        return float_of(x if x <= largest else math.inf, component_width)
+
     allow_kw = {
         "allow_nan": allow_nan,
         "allow_infinity": allow_infinity,
@@ -2066,9 +2083,9 @@ def complex_numbers(
     def constrained_complex(draw):
         # We downcast drawn floats to the desired (component) width so we
         # guarantee the resulting complex values are representable. Note
-        # truncating the mantissa bits with float_of() cannot increase the
-        # magnitude of a float, so we are guaranteed to stay within the allowed
-        # range. See https://github.com/HypothesisWorks/hypothesis/issues/3573
+        # rounding to the nearest float can increase the magnitude, so that the
+        # imaginary part may be (very slightly) larger than max_magnitude.
+        # See https://github.com/HypothesisWorks/hypothesis/issues/3573
 
         # Draw the imaginary part, and determine the maximum real part given
         # this and the max_magnitude
@@ -2076,19 +2093,22 @@ def complex_numbers(
             zi = draw(floats(**allow_kw))
             rmax = None
         else:
-            zi = draw(
-                floats(
-                    -float_of(max_magnitude, component_width),
-                    float_of(max_magnitude, component_width),
-                    **allow_kw,
-                )
-            )
-            rmax = float_of(cathetus(max_magnitude, zi), component_width)
+            imax = to_component(min(max_magnitude, largest))
+            zi = draw(floats(-imax, imax, **allow_kw))
+            if math.fabs(zi) >= max_magnitude:
+                rmax = 0.0
+            else:
+                rmax = to_component(min(cathetus(max_magnitude, zi), largest))
         # Draw the real part from the allowed range given the imaginary part
         if min_magnitude == 0 or math.fabs(zi) >= min_magnitude:
             zr = draw(floats(None if rmax is None else -rmax, rmax, **allow_kw))
         else:
-            rmin = float_of(cathetus(min_magnitude, zi), component_width)
+            rmin = to_component(cathetus(min_magnitude, zi))
+            if not allow_subnormal and rmax is not None and 0 < rmin:
+                if rmax < smallest_normal:
+                    # There is no real part to go with this imaginary part.
+                    zi = 0.0
+                    rmin, rmax = to_component(min_magnitude), imax
             zr = draw(floats(rmin, rmax, **allow_kw))
         # Order of conditions carefully tuned so that for a given pair of
         # magnitude arguments, we always either draw or do not draw the bool
-- 
2.43.0


From b5c0143be8a9dfa4384b85041ef4dd89b593e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 15/53] fix: text() and regex alphabets respect
 sampled_from(...).map() and .filter()

Only the elements of a sampled_from() alphabet were used, ignoring any
transformations applied to the strategy.
---
 .../src/hypothesis/strategies/_internal/core.py       |  5 ++++-
 .../src/hypothesis/strategies/_internal/strings.py    | 11 ++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/core.py b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
index 0d905a0..44703a6 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/core.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/core.py
@@ -810,7 +810,10 @@ def text(
     check_valid_sizes(min_size, max_size)
     if isinstance(alphabet, SearchStrategy):
         char_strategy = unwrap_strategies(alphabet)
-        if isinstance(char_strategy, SampledFromStrategy):
+        if (
+            isinstance(char_strategy, SampledFromStrategy)
+            and not char_strategy._transformations
+        ):
             # Check this via the up-front validation logic below, and incidentally
             # convert into a `characters()` strategy for standard text shrinking.
             return text(char_strategy.elements, min_size=min_size, max_size=max_size)
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 4f38627..61ba457 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -27,6 +27,7 @@ from hypothesis.strategies._internal.strategies import (
     OneOfStrategy,
     SampledFromStrategy,
     SearchStrategy,
+    filter_not_satisfied,
 )
 from hypothesis.vendor.pretty import pretty
 
@@ -104,12 +105,12 @@ class OneCharStringStrategy(SearchStrategy[str]):
         if isinstance(char_strategy, cls):
             return char_strategy
         elif isinstance(char_strategy, SampledFromStrategy):
-            for c in char_strategy.elements:
+            # account for any .map or .filter calls on the sampled_from strategy
+            chars = [char_strategy._transform(c) for c in char_strategy.elements]
+            chars = [c for c in chars if c is not filter_not_satisfied]
+            for c in chars:
                 _check_is_single_character(c)
-            return cls.from_characters_args(
-                categories=(),
-                include_characters=char_strategy.elements,
-            )
+            return cls.from_characters_args(categories=(), include_characters=chars)
         elif isinstance(char_strategy, OneOfStrategy):
             intervals = IntervalSet()
             for s in char_strategy.element_strategies:
-- 
2.43.0


From 17246a46ca5b507644a4d561122067f2b2369a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 16/53] fix: characters(codec='ascii', min_codepoint=200) is
 empty rather than crashing

The ascii codec caps max_codepoint, so that the codepoint range may be empty.
---
 hypothesis-python/src/hypothesis/internal/charmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/charmap.py b/hypothesis-python/src/hypothesis/internal/charmap.py
index bf6bb59..9e94fd5 100644
--- a/hypothesis-python/src/hypothesis/internal/charmap.py
+++ b/hypothesis-python/src/hypothesis/internal/charmap.py
@@ -332,8 +332,9 @@ def query(
     base = _query_for_key(catkey)
     result = []
     for u, v in base:
-        if v >= min_codepoint and u <= max_codepoint:
-            result.append((max(u, min_codepoint), min(v, max_codepoint)))
+        u, v = max(u, min_codepoint), min(v, max_codepoint)
+        if u <= v:
+            result.append((u, v))
     result = (IntervalSet(result) | character_intervals) - exclude_intervals
     if context is None or not context.data.provider.avoid_realization:
         limited_category_index_cache[qkey] = result
-- 
2.43.0


From 0573e6bba45efa6b1cd64aad2a325f8d50472860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 17/53] fix: exact bounds when rewriting numeric filters

---
 .../src/hypothesis/internal/filtering.py      | 88 ++++++++++++-------
 .../strategies/_internal/numbers.py           | 26 ++++--
 2 files changed, 72 insertions(+), 42 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/filtering.py b/hypothesis-python/src/hypothesis/internal/filtering.py
index f56e9b8..aaa44ca 100644
--- a/hypothesis-python/src/hypothesis/internal/filtering.py
+++ b/hypothesis-python/src/hypothesis/internal/filtering.py
@@ -33,7 +33,7 @@ from functools import partial
 from typing import Any, Callable, NamedTuple, Optional, TypeVar
 
 from hypothesis.internal.compat import ceil, floor
-from hypothesis.internal.floats import next_down, next_up
+from hypothesis.internal.floats import next_up
 from hypothesis.internal.reflection import (
     extract_lambda_source,
     get_pretty_function_description,
@@ -160,13 +160,14 @@ def merge_preds(*con_predicates: ConstructivePredicate) -> ConstructivePredicate
     if has_len == {True}:
         base["len"] = True
 
+    # Keep even a trivial bound if it was explicit, because it still excludes nan.
     if not base["exclude_min"]:
         del base["exclude_min"]
-        if base["min_value"] == -math.inf:
+        if not any("min_value" in kw for kw, _ in con_predicates):
             del base["min_value"]
     if not base["exclude_max"]:
         del base["exclude_max"]
-        if base["max_value"] == math.inf:
+        if not any("max_value" in kw for kw, _ in con_predicates):
             del base["max_value"]
     return ConstructivePredicate(base, predicate)
 
@@ -230,7 +231,7 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if (
             (isinstance(arg, Decimal) and Decimal.is_snan(arg))
             or not isinstance(arg, (int, float, Fraction, Decimal))
-            or math.isnan(arg)
+            or arg != arg  # i.e. nan; math.isnan() fails on very large integers
         ):
             return unchanged
         options = {
@@ -247,6 +248,11 @@ def get_numeric_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
         if predicate.func in options:
             return ConstructivePredicate(options[predicate.func], None)
 
+    # inspect.getsource() would show us the source code of the wrapped function, which
+    # does not tell us what the wrapper does.
+    if hasattr(predicate, "__wrapped__"):
+        return unchanged
+
     # This section is a little complicated, but stepping through with comments should
     # help to clarify it.  We start by finding the source code for our predicate and
     # parsing it to an abstract syntax tree; if this fails for any reason we bail out
@@ -285,55 +291,69 @@ def get_integer_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     constraints, predicate = get_numeric_predicate_bounds(predicate)
 
     if "min_value" in constraints:
-        if constraints["min_value"] == -math.inf:
+        min_value = constraints["min_value"]
+        if min_value == -math.inf:
             del constraints["min_value"]
-        elif math.isinf(constraints["min_value"]):
+        elif min_value == math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
-        elif constraints["min_value"] != int(constraints["min_value"]):
-            constraints["min_value"] = ceil(constraints["min_value"])
-        elif constraints.get("exclude_min", False):
-            constraints["min_value"] = int(constraints["min_value"]) + 1
+        else:
+            constraints["min_value"] = ceil(min_value)
+            if constraints.get("exclude_min", False) and min_value == ceil(min_value):
+                constraints["min_value"] += 1
 
     if "max_value" in constraints:
-        if constraints["max_value"] == math.inf:
+        max_value = constraints["max_value"]
+        if max_value == math.inf:
             del constraints["max_value"]
-        elif math.isinf(constraints["max_value"]):
+        elif max_value == -math.inf:
             return ConstructivePredicate({"min_value": 1, "max_value": -1}, None)
-        elif constraints["max_value"] != int(constraints["max_value"]):
-            constraints["max_value"] = floor(constraints["max_value"])
-        elif constraints.get("exclude_max", False):
-            constraints["max_value"] = int(constraints["max_value"]) - 1
+        else:
+            constraints["max_value"] = floor(max_value)
+            if constraints.get("exclude_max", False) and max_value == floor(max_value):
+                constraints["max_value"] -= 1
 
     kw_categories = {"min_value", "max_value", "len"}
     constraints = {k: v for k, v in constraints.items() if k in kw_categories}
     return ConstructivePredicate(constraints, predicate)
 
 
+def _least_float(bound, *, exclude: bool) -> Optional[float]:
+    """The first float which compares greater than (or equal to) ``bound``."""
+    try:
+        value = float(bound)
+    except OverflowError:
+        value = math.inf if bound > 0 else -math.inf
+    if value < bound or (exclude and value == bound):
+        if value == math.inf:
+            return None
+        # Signed zeros compare equal, so next_up(-0.0) == 0.0 is not strictly greater
+        return next_up(value + 0.0)
+    return -0.0 if value == 0 else value
+
+
 def get_float_predicate_bounds(predicate: Predicate) -> ConstructivePredicate:
     constraints, predicate = get_numeric_predicate_bounds(predicate)
+    bounds: dict[str, Any] = {}
 
     if "min_value" in constraints:
-        min_value = constraints["min_value"]
-        constraints["min_value"] = float(constraints["min_value"])
-        if min_value < constraints["min_value"] or (
-            min_value == constraints["min_value"]
-            and constraints.get("exclude_min", False)
-        ):
-            constraints["min_value"] = next_up(constraints["min_value"])
-
+        bounds["min_value"] = _least_float(
+            constraints["min_value"], exclude=constraints.get("exclude_min", False)
+        )
     if "max_value" in constraints:
+        # By symmetry, the greatest float is the negation of the least float which
+        # compares greater than (or equal to) the negated bound.  Note that negating
+        # a Decimal would round it to the precision of the current context.
         max_value = constraints["max_value"]
-        constraints["max_value"] = float(constraints["max_value"])
-        if max_value > constraints["max_value"] or (
-            max_value == constraints["max_value"]
-            and constraints.get("exclude_max", False)
-        ):
-            constraints["max_value"] = next_down(constraints["max_value"])
+        if isinstance(max_value, Decimal):
+            max_value = max_value.copy_negate()
+        else:
+            max_value = -max_value
+        value = _least_float(max_value, exclude=constraints.get("exclude_max", False))
+        bounds["max_value"] = None if value is None else -value
 
-    constraints = {
-        k: v for k, v in constraints.items() if k in {"min_value", "max_value"}
-    }
-    return ConstructivePredicate(constraints, predicate)
+    if None in bounds.values():  # e.g. x > inf, which cannot be satisfied
+        bounds = {"min_value": math.inf, "max_value": -math.inf}
+    return ConstructivePredicate(bounds, predicate)
 
 
 def max_len(size: int, element: Collection[object]) -> bool:
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
index d67b1cf..7fd6fd8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/numbers.py
@@ -30,6 +30,7 @@ from hypothesis.internal.floats import (
     next_down_normal,
     next_up,
     next_up_normal,
+    sign_aware_lte,
     width_smallest_normals,
 )
 from hypothesis.internal.validation import (
@@ -191,9 +192,13 @@ class FloatStrategy(SearchStrategy[float]):
     def filter(self, condition):
         # Handle a few specific weird cases.
         if condition is math.isfinite:
+            min_value = max(self.min_value, next_up(float("-inf")))
+            max_value = min(self.max_value, next_down(float("inf")))
+            if min_value > max_value:
+                return nothing()
             return FloatStrategy(
-                min_value=max(self.min_value, next_up(float("-inf"))),
-                max_value=min(self.max_value, next_down(float("inf"))),
+                min_value=min_value,
+                max_value=max_value,
                 allow_nan=False,
                 smallest_nonzero_magnitude=self.smallest_nonzero_magnitude,
             )
@@ -213,8 +218,13 @@ class FloatStrategy(SearchStrategy[float]):
         constraints, pred = get_float_predicate_bounds(condition)
         if not constraints:
             return super().filter(pred)
-        min_bound = max(constraints.get("min_value", -math.inf), self.min_value)
-        max_bound = min(constraints.get("max_value", math.inf), self.max_value)
+        # -0.0 == 0.0, so we can't use max() and min() to find the tighter bound
+        min_bound = constraints.get("min_value", -math.inf)
+        if sign_aware_lte(min_bound, self.min_value):
+            min_bound = self.min_value
+        max_bound = constraints.get("max_value", math.inf)
+        if sign_aware_lte(self.max_value, max_bound):
+            max_bound = self.max_value
 
         # Adjustments for allow_subnormal=False, if any need to be made
         if -self.smallest_nonzero_magnitude < min_bound < 0:
@@ -226,12 +236,12 @@ class FloatStrategy(SearchStrategy[float]):
         elif 0 < max_bound < self.smallest_nonzero_magnitude:
             max_bound = 0.0
 
-        if min_bound > max_bound:
+        if not sign_aware_lte(min_bound, max_bound):
             return nothing()
         if (
-            min_bound > self.min_value
-            or self.max_value > max_bound
-            or (self.allow_nan and (-math.inf < min_bound or max_bound < math.inf))
+            not sign_aware_lte(min_bound, self.min_value)
+            or not sign_aware_lte(self.max_value, max_bound)
+            or self.allow_nan
         ):
             self = type(self)(
                 min_value=min_bound,
-- 
2.43.0


From c0a6f8162c29c0aab6d3d5cf8af8e727e7a836af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 18/53] fix: do not trust the source of a lambda which
 getsource() truncated

---
 .../src/hypothesis/internal/reflection.py     | 50 +++++++++++++++++--
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/reflection.py b/hypothesis-python/src/hypothesis/internal/reflection.py
index 6e3de42..da6dc47 100644
--- a/hypothesis-python/src/hypothesis/internal/reflection.py
+++ b/hypothesis-python/src/hypothesis/internal/reflection.py
@@ -28,7 +28,7 @@ from io import StringIO
 from keyword import iskeyword
 from random import _inst as global_random_instance
 from tokenize import COMMENT, detect_encoding, generate_tokens, untokenize
-from types import ModuleType
+from types import CodeType, ModuleType
 from typing import Any, Callable, Optional, TypeVar
 from unittest.mock import _patch as PatchType
 from weakref import WeakKeyDictionary
@@ -293,6 +293,41 @@ SPACE_FOLLOWS_OPEN_BRACKET = re.compile(r"\( ")
 SPACE_PRECEDES_CLOSE_BRACKET = re.compile(r" \)")
 
 
+def _equivalent_code(x: Any, y: Any) -> bool:
+    if isinstance(x, CodeType) and isinstance(y, CodeType):
+        return (
+            x.co_code == y.co_code
+            and x.co_names == y.co_names
+            and len(x.co_consts) == len(y.co_consts)
+            and all(map(_equivalent_code, x.co_consts, y.co_consts))
+        )
+    return type(x) is type(y) and repr(x) == repr(y)
+
+
+def _lambda_matches_source(f: Any, source: str) -> bool:
+    """Check that ``source`` isn't only the first line of a longer lambda.
+
+    inspect.getsource() stops at the end of a line unless it has seen an opening
+    bracket, which might be on an earlier line than the lambda keyword.
+    """
+    try:
+        # Enclosing the lambda in a function means that we can also
+        # handle references to nonlocal variables.
+        freevars = ", ".join(f.__code__.co_freevars)
+        code: Any = compile(
+            f"def enclosing({freevars}):\n  return (\n{source}\n)", "<lambda>", "exec"
+        )
+        for name in ("enclosing", "<lambda>"):
+            (code,) = (
+                c
+                for c in code.co_consts
+                if isinstance(c, CodeType) and c.co_name == name
+            )
+    except Exception:
+        return True  # Assume it's OK unless we know otherwise
+    return _equivalent_code(code, f.__code__)
+
+
 def _extract_lambda_source(f):
     """Extracts a single lambda expression from the string source. Returns a
     string indicating an unknown body if it gets confused in any way.
@@ -412,9 +447,13 @@ def _extract_lambda_source(f):
     for i in range(len(source), len("lambda"), -1):  # pragma: no branch
         try:
             parsed = ast.parse(source[:i])
-            assert len(parsed.body) == 1
             assert parsed.body
-            if isinstance(parsed.body[0].value, ast.Lambda):
+            # The lambda may be followed by e.g. `; another_statement`
+            if (
+                len(parsed.body) == 1
+                and isinstance(parsed.body[0], ast.Expr)
+                and isinstance(parsed.body[0].value, ast.Lambda)
+            ):
                 source = source[:i]
                 break
         except SyntaxError:
@@ -426,7 +465,10 @@ def _extract_lambda_source(f):
     source = WHITESPACE.sub(" ", source)
     source = SPACE_FOLLOWS_OPEN_BRACKET.sub("(", source)
     source = SPACE_PRECEDES_CLOSE_BRACKET.sub(")", source)
-    return source.strip()
+    source = source.strip()
+    if not _lambda_matches_source(f, source):
+        return if_confused
+    return source
 
 
 def extract_lambda_source(f):
-- 
2.43.0


From 46cc8ca164d659e61d7ac62e007c0ee5a3e181fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 19/53] fix: length filters on unique lists and on empty lists

---
 .../src/hypothesis/strategies/_internal/collections.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index bcdbe7f..d59a7ff 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -214,11 +214,18 @@ class ListStrategy(SearchStrategy[list[Ex]]):
 
     def filter(self, condition: Callable[[list[Ex]], Any]) -> SearchStrategy[list[Ex]]:
         if condition in self._nonempty_filters or is_identity_function(condition):
-            assert self.max_size >= 1, "Always-empty is special cased in st.lists()"
+            if self.max_size < 1:
+                # Unsatisfiable filters are easiest to understand without rewriting.
+                return SearchStrategy.filter(self, condition)
             if self.min_size >= 1:
                 return self
             new = copy.copy(self)
             new.min_size = 1
+            # as in __init__, so that we can still generate more than one element
+            new.average_size = min(
+                max(new.min_size * 2, new.min_size + 5),
+                0.5 * (new.min_size + new.max_size),
+            )
             return new
 
         constraints, pred = get_integer_predicate_bounds(condition)
-- 
2.43.0


From 76c2055ce95250f445a42c5980597f18082570dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 20/53] fix: apply filters on mapped lists to the mapped value
 only

---
 .../hypothesis/strategies/_internal/strategies.py   | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py b/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
index 58cb66b..906b208 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
@@ -974,7 +974,12 @@ class MappedStrategy(SearchStrategy[MappedTo], Generic[MappedFrom, MappedTo]):
         # lengths, when most collections are `st.lists(...).map(the_type)`.
         ListStrategy = _list_strategy_type()
         if not isinstance(self.mapped_strategy, ListStrategy) or not (
-            (isinstance(self.pack, type) and issubclass(self.pack, abc.Collection))
+            (
+                isinstance(self.pack, type)
+                and issubclass(self.pack, abc.Collection)
+                # because len(str(x)) is not related to len(x)
+                and not issubclass(self.pack, str)
+            )
             or self.pack in _collection_ish_functions()
         ):
             return super().filter(condition)
@@ -982,7 +987,11 @@ class MappedStrategy(SearchStrategy[MappedTo], Generic[MappedFrom, MappedTo]):
         # Check whether our inner list strategy can rewrite this filter condition.
         # If not, discard the result and _only_ apply a new outer filter.
         new = ListStrategy.filter(self.mapped_strategy, condition)
-        if getattr(new, "filtered_strategy", None) is self.mapped_strategy:
+        # If the condition still needs to be checked, that's only valid for the
+        # mapped value - which we do below - and not for the list we made it from.
+        if isinstance(new, FilteredStrategy):
+            new = new.filtered_strategy
+        if new is self.mapped_strategy:
             return super().filter(condition)  # didn't rewrite
 
         # Apply a new outer filter even though we rewrote the inner strategy,
-- 
2.43.0


From 6990240fd261c44a144011187d08b66baee9ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 21/53] fix: exact rewriting of text() and binary() filters

---
 .../strategies/_internal/strings.py           | 44 ++++++++++++-------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
index 61ba457..a584d64 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strings.py
@@ -130,10 +130,7 @@ class OneCharStringStrategy(SearchStrategy[str]):
 _nonempty_names = (
     "capitalize",
     "expandtabs",
-    "join",
     "lower",
-    "rsplit",
-    "split",
     "splitlines",
     "swapcase",
     "title",
@@ -144,12 +141,13 @@ _nonempty_and_content_names = (
     "isupper",
     "isalnum",
     "isalpha",
-    "isascii",
     "isdigit",
     "isspace",
     "istitle",
     "lstrip",
+    "rsplit",
     "rstrip",
+    "split",
     "strip",
 )
 
@@ -245,20 +243,36 @@ def _string_filter_rewrite(self, kind, condition):
         and isinstance(pattern := getattr(condition, "__self__", None), re.Pattern)
         and isinstance(pattern.pattern, kind)
     ):
-        from hypothesis.strategies._internal.regex import regex_strategy
+        from hypothesis.strategies._internal.regex import (
+            IncompatibleWithAlphabet,
+            regex_strategy,
+        )
 
         if condition.__name__ == "match":
-            # Replace with an easier-to-handle equivalent condition
-            caret, close = ("^(?:", ")") if kind is str else (b"^(?:", b")")
-            pattern = re.compile(caret + pattern.pattern + close, flags=pattern.flags)
+            # Replace with an easier-to-handle equivalent condition, if we can.  Note
+            # that `^` would match after any newline if the MULTILINE flag is set, and
+            # that the newline ends any trailing comment if the VERBOSE flag is.
+            start, close = (r"\A(?:", ")") if kind is str else (rb"\A(?:", b")")
+            if pattern.flags & re.VERBOSE:
+                close = "\n)" if kind is str else b"\n)"
+            try:
+                pattern = re.compile(
+                    start + pattern.pattern + close, flags=pattern.flags
+                )
+            except re.error:
+                # e.g. for global flags, which must be at the start of the pattern
+                return SearchStrategy.filter(self, condition)
             condition = pattern.search
 
         if condition.__name__ in ("search", "findall", "fullmatch"):
-            s = regex_strategy(
-                pattern,
-                fullmatch=condition.__name__ == "fullmatch",
-                alphabet=self.element_strategy if kind is str else None,
-            )
+            try:
+                s = regex_strategy(
+                    pattern,
+                    fullmatch=condition.__name__ == "fullmatch",
+                    alphabet=self.element_strategy if kind is str else None,
+                )
+            except IncompatibleWithAlphabet:
+                return SearchStrategy.filter(self, condition)
             if self.min_size > 0:
                 s = s.filter(partial(min_len, self.min_size))
             if self.max_size < 1e999:
@@ -276,11 +290,11 @@ def _string_filter_rewrite(self, kind, condition):
         elif condition.__name__ == "split":
             warnings.warn(
                 f"You applied {pretty(condition)} as a filter, but this allows "
-                f"any nonempty string!  Did you mean .search ?",
+                f"any string at all!  Did you mean .search ?",
                 HypothesisWarning,
                 stacklevel=3,
             )
-            return self.filter(bool)
+            return self
 
     # We use ListStrategy filter logic for the conditions that *only* imply
     # the string is nonempty.  Here, we increment the min_size but still apply
-- 
2.43.0


From c7a73b03f212d5debd65531fe7073053cdd9f54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 22/53] fix: from_regex() handles character classes, padding
 and the alphabet exactly

---
 .../hypothesis/strategies/_internal/regex.py  | 157 +++++++++---------
 1 file changed, 81 insertions(+), 76 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index b51e90e..00e191f 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -30,11 +30,9 @@ except ImportError:  # Python < 3.11
     POSSESSIVE_REPEAT = object()
 
 from hypothesis import reject, strategies as st
-from hypothesis.internal.charmap import as_general_categories, categories
+from hypothesis.internal.charmap import as_general_categories
 from hypothesis.internal.compat import add_note, int_to_byte
-
-UNICODE_CATEGORIES = set(categories())
-
+from hypothesis.internal.intervalsets import IntervalSet
 
 SPACE_CHARS = set(" \t\n\r\f\v")
 UNICODE_SPACE_CHARS = SPACE_CHARS | set("\x1c\x1d\x1e\x1f\x85")
@@ -109,6 +107,15 @@ def chars_not_in_alphabet(alphabet, string):
     return tuple(c for c in string if c not in intset)
 
 
+def one_char_in_alphabet(intervals, alphabet):
+    intervals &= unwrap_strategies(alphabet).intervals
+    if not intervals:
+        raise IncompatibleWithAlphabet(
+            "The pattern requires a character which is not in the specified alphabet"
+        )
+    return OneCharStringStrategy(intervals)
+
+
 class Context:
     __slots__ = ["flags"]
 
@@ -127,59 +134,62 @@ class CharactersBuilder:
     """
 
     def __init__(self, *, negate=False, flags=0, alphabet):
-        self._categories = set()
+        self._intervals = IntervalSet(())
         self._whitelist_chars = set()
-        self._blacklist_chars = set()
         self._negate = negate
         self._ignorecase = flags & re.IGNORECASE
+        self._ascii = flags & re.ASCII
         self.code_to_char = chr
         self._alphabet = unwrap_strategies(alphabet)
-        if flags & re.ASCII:
-            self._alphabet = OneCharStringStrategy(
-                self._alphabet.intervals & charmap.query(max_codepoint=127)
-            )
 
     @property
     def strategy(self):
         """Returns resulting strategy that generates configured char set."""
         # Start by getting the set of all characters allowed by the pattern
-        white_chars = self._whitelist_chars - self._blacklist_chars
-        multi_chars = {c for c in white_chars if len(c) > 1}
-        intervals = charmap.query(
-            categories=self._categories,
-            exclude_characters=self._blacklist_chars,
-            include_characters=white_chars - multi_chars,
+        multi_chars = {c for c in self._whitelist_chars if len(c) > 1}
+        intervals = self._intervals | IntervalSet.from_string(
+            "".join(self._whitelist_chars - multi_chars)
         )
         # Then take the complement if this is from a negated character class
         if self._negate:
             intervals = charmap.query() - intervals
             multi_chars.clear()
         # and finally return the intersection with our alphabet
-        return OneCharStringStrategy(intervals & self._alphabet.intervals) | (
-            st.sampled_from(sorted(multi_chars)) if multi_chars else st.nothing()
-        )
+        multi_chars = {
+            s for s in multi_chars if not chars_not_in_alphabet(self._alphabet, s)
+        }
+        if not multi_chars:
+            return one_char_in_alphabet(intervals, self._alphabet)
+        sampled = st.sampled_from(sorted(multi_chars))
+        try:
+            return one_char_in_alphabet(intervals, self._alphabet) | sampled
+        except IncompatibleWithAlphabet:
+            return sampled
 
     def add_category(self, category):
         """Update unicode state to match sre_parse object ``category``."""
-        if category == sre.CATEGORY_DIGIT:
-            self._categories |= UNICODE_DIGIT_CATEGORIES
-        elif category == sre.CATEGORY_NOT_DIGIT:
-            self._categories |= UNICODE_CATEGORIES - UNICODE_DIGIT_CATEGORIES
-        elif category == sre.CATEGORY_SPACE:
-            self._categories |= UNICODE_SPACE_CATEGORIES
-            self._whitelist_chars |= UNICODE_SPACE_CHARS
-        elif category == sre.CATEGORY_NOT_SPACE:
-            self._categories |= UNICODE_CATEGORIES - UNICODE_SPACE_CATEGORIES
-            self._blacklist_chars |= UNICODE_SPACE_CHARS
-        elif category == sre.CATEGORY_WORD:
-            self._categories |= UNICODE_WORD_CATEGORIES
-            self._whitelist_chars.add("_")
-        elif category == sre.CATEGORY_NOT_WORD:
-            self._categories |= UNICODE_CATEGORIES - UNICODE_WORD_CATEGORIES
-            self._blacklist_chars.add("_")
+        if category in (sre.CATEGORY_DIGIT, sre.CATEGORY_NOT_DIGIT):
+            positive = sre.CATEGORY_DIGIT
+            categories, characters = UNICODE_DIGIT_CATEGORIES, ()
+        elif category in (sre.CATEGORY_SPACE, sre.CATEGORY_NOT_SPACE):
+            positive = sre.CATEGORY_SPACE
+            categories, characters = UNICODE_SPACE_CATEGORIES, UNICODE_SPACE_CHARS
+        elif category in (sre.CATEGORY_WORD, sre.CATEGORY_NOT_WORD):
+            positive = sre.CATEGORY_WORD
+            categories, characters = UNICODE_WORD_CATEGORIES, {"_"}
         else:
             raise NotImplementedError(f"Unknown character category: {category}")
 
+        if self._ascii:
+            categories = ()
+            characters = {c.decode("ascii") for c in BYTES_LOOKUP[positive]}
+        intervals = charmap.query(
+            categories=categories, include_characters=sorted(characters)
+        )
+        if category != positive:
+            intervals = charmap.query() - intervals
+        self._intervals |= intervals
+
     def add_char(self, c):
         """Add given char to the whitelist."""
         self._whitelist_chars.add(c)
@@ -194,7 +204,6 @@ class CharactersBuilder:
 class BytesBuilder(CharactersBuilder):
     def __init__(self, *, negate=False, flags=0):
         self._whitelist_chars = set()
-        self._blacklist_chars = set()
         self._negate = negate
         self._alphabet = None
         self._ignorecase = flags & re.IGNORECASE
@@ -218,11 +227,14 @@ def maybe_pad(draw, regex, strategy, left_pad_strategy, right_pad_strategy):
     """Attempt to insert padding around the result of a regex draw while
     preserving the match."""
     result = draw(strategy)
+    # Some patterns, such as r"\b", only match with the right padding
+    matches = bool(regex.search(result))
     left_pad = draw(left_pad_strategy)
-    if left_pad and regex.search(left_pad + result):
+    if left_pad and (not matches or regex.search(left_pad + result)):
         result = left_pad + result
+        matches = bool(regex.search(result))
     right_pad = draw(right_pad_strategy)
-    if right_pad and regex.search(result + right_pad):
+    if right_pad and (not matches or regex.search(result + right_pad)):
         result += right_pad
     return result
 
@@ -267,7 +279,9 @@ def regex_strategy(
     if is_unicode:
         base_padding_strategy = st.text(alphabet=alphabet)
         empty = st.just("")
-        newline = st.just("\n")
+        newline = (
+            st.nothing() if chars_not_in_alphabet(alphabet, "\n") else st.just("\n")
+        )
     else:
         base_padding_strategy = st.binary()
         empty = st.just(b"")
@@ -304,9 +318,9 @@ def regex_strategy(
             else:
                 left_pad = empty
 
-    base = base_regex_strategy(regex, parsed, alphabet).filter(regex.search)
+    base = base_regex_strategy(regex, parsed, alphabet)
 
-    return maybe_pad(regex, base, left_pad, right_pad)
+    return maybe_pad(regex, base, left_pad, right_pad).filter(regex.search)
 
 
 def _strategy(codes, context, is_unicode, *, alphabet):
@@ -389,20 +403,21 @@ def _strategy(codes, context, is_unicode, *, alphabet):
         if code == sre.LITERAL:
             # Regex 'a' (single char)
             c = to_char(value)
-            if chars_not_in_alphabet(alphabet, c):
-                raise IncompatibleWithAlphabet(
-                    f"Literal {c!r} is not in the specified alphabet"
-                )
+            options = [c]
             if (
                 context.flags & re.IGNORECASE
                 and c != c.swapcase()
                 and re.match(re.escape(c), c.swapcase(), re.IGNORECASE) is not None
-                and not chars_not_in_alphabet(alphabet, c.swapcase())
             ):
                 # We do the explicit check for swapped-case matching because
                 # eg 'ß'.upper() == 'SS' and ignorecase doesn't match it.
-                return st.sampled_from([c, c.swapcase()])
-            return st.just(c)
+                options.append(c.swapcase())
+            options = [x for x in options if not chars_not_in_alphabet(alphabet, x)]
+            if not options:
+                raise IncompatibleWithAlphabet(
+                    f"Literal {c!r} is not in the specified alphabet"
+                )
+            return st.sampled_from(options) if len(options) > 1 else st.just(*options)
 
         elif code == sre.NOT_LITERAL:
             # Regex '[^a]' (negation of a single char)
@@ -423,16 +438,17 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 # As a final additional wrinkle, "latin letter capital I" *also*
                 # case-insensitive-matches, with or without combining dot character.
                 # We therefore have to chain .swapcase() calls until a fixpoint.
+                # (bytes are always swapped for exactly one byte)
                 stack = [c.swapcase()]
-                while stack:
+                while is_unicode and stack:
                     for char in stack.pop():
                         blacklist.add(char)
                         stack.extend(set(char.swapcase()) - blacklist)
+                blacklist.update(stack)
 
             if is_unicode:
-                return OneCharStringStrategy(
-                    unwrap_strategies(alphabet).intervals
-                    & charmap.query(exclude_characters=blacklist)
+                return one_char_in_alphabet(
+                    charmap.query(exclude_characters=blacklist), alphabet
                 )
             else:
                 return binary_char.filter(lambda c: c not in blacklist)
@@ -454,28 +470,12 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                     pass
                 elif charset_code == sre.LITERAL:
                     # Regex '[a]' (single char)
-                    c = builder.code_to_char(charset_value)
-                    if chars_not_in_alphabet(builder._alphabet, c):
-                        raise IncompatibleWithAlphabet(
-                            f"Literal {c!r} is not in the specified alphabet"
-                        )
-                    builder.add_char(c)
+                    builder.add_char(builder.code_to_char(charset_value))
                 elif charset_code == sre.RANGE:
                     # Regex '[a-z]' (char range)
                     low, high = charset_value
-                    chars = empty.join(map(builder.code_to_char, range(low, high + 1)))
-                    if len(chars) == len(
-                        invalid := set(chars_not_in_alphabet(alphabet, chars))
-                    ):
-                        raise IncompatibleWithAlphabet(
-                            f"Charset '[{chr(low)}-{chr(high)}]' contains characters {invalid!r} "
-                            f"which are not in the specified alphabet"
-                        )
-                    for c in chars:
-                        if isinstance(c, int):
-                            c = int_to_byte(c)
-                        if c not in invalid:
-                            builder.add_char(c)
+                    for c in map(builder.code_to_char, range(low, high + 1)):
+                        builder.add_char(c)
                 elif charset_code == sre.CATEGORY:
                     # Regex '[\w]' (char category)
                     builder.add_category(charset_value)
@@ -491,9 +491,8 @@ def _strategy(codes, context, is_unicode, *, alphabet):
                 assert alphabet is not None
                 if context.flags & re.DOTALL:
                     return alphabet
-                return OneCharStringStrategy(
-                    unwrap_strategies(alphabet).intervals
-                    & charmap.query(exclude_characters="\n")
+                return one_char_in_alphabet(
+                    charmap.query(exclude_characters="\n"), alphabet
                 )
             else:
                 if context.flags & re.DOTALL:
@@ -551,9 +550,15 @@ def _strategy(codes, context, is_unicode, *, alphabet):
             at_least, at_most, subregex = value
             if at_most == sre.MAXREPEAT:
                 at_most = None
+            try:
+                repeated = recurse(subregex)
+            except IncompatibleWithAlphabet:
+                if at_least == 0:
+                    return st.just(empty)
+                raise
             if at_least == 0 and at_most == 1:
-                return st.just(empty) | recurse(subregex)
-            return st.lists(recurse(subregex), min_size=at_least, max_size=at_most).map(
+                return st.just(empty) | repeated
+            return st.lists(repeated, min_size=at_least, max_size=at_most).map(
                 empty.join
             )
 
-- 
2.43.0


From cee2aff93b7c24dfaaae57ad5c7d1e7784fa3537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:43 +0000
Subject: [PATCH 23/53] fix: remove a debugging print from dates().filter()

---
 .../src/hypothesis/strategies/_internal/datetime.py              | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
index 12f5154..88b84e8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/datetime.py
@@ -290,7 +290,6 @@ class DateStrategy(SearchStrategy):
             }[condition.func]
             lo = max(lo, self.min_value)
             hi = min(hi, self.max_value)
-            print(lo, hi)
             if hi < lo:
                 return nothing()
             if lo <= self.min_value and self.max_value <= hi:
-- 
2.43.0


From 1daab7ac70c82352cd80ee0d901a2de0b7f7ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:25 +0000
Subject: [PATCH 24/53] fix: unique lists of sampled elements with too few
 distinct keys

---
 .../src/hypothesis/strategies/_internal/collections.py       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
index d59a7ff..055774b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/collections.py
@@ -341,7 +341,10 @@ class UniqueSampledListStrategy(UniqueListStrategy):
                 should_draw.reject(
                     "UniqueSampledListStrategy filter not satisfied or value already seen"
                 )
-        assert self.max_size >= len(result) >= self.min_size
+        if len(result) < self.min_size:
+            # e.g. because some elements are equal, or have equal unique_by keys
+            data.mark_invalid("UniqueSampledListStrategy has too few distinct elements")
+        assert self.max_size >= len(result)
         return result
 
 
-- 
2.43.0


From b7b8b426da469e9a94ce5f6969168c87347f7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:24 +0000
Subject: [PATCH 25/53] fix: shared() with a falsy key

---
 hypothesis-python/src/hypothesis/strategies/_internal/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
index 285dbb6..ba25db5 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/shared.py
@@ -34,7 +34,7 @@ class SharedStrategy(SearchStrategy[Ex]):
     # Ideally would be -> Ex, but key collisions with different-typed values are
     # possible. See https://github.com/HypothesisWorks/hypothesis/issues/4301.
     def do_draw(self, data: ConjectureData) -> Any:
-        key = self.key or self
+        key = self if self.key is None else self.key
         if key not in data._shared_strategy_draws:
             data._shared_strategy_draws[key] = data.draw(self.base)
         return data._shared_strategy_draws[key]
-- 
2.43.0


From 90510e3e48b29345083996cd923f9ed1d4e1f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:36 +0000
Subject: [PATCH 26/53] fix: keep the structure of rewritten filters on mapped
 lists

---
 .../src/hypothesis/strategies/_internal/strategies.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py b/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
index 906b208..c007dfc 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/strategies.py
@@ -990,9 +990,11 @@ class MappedStrategy(SearchStrategy[MappedTo], Generic[MappedFrom, MappedTo]):
         # If the condition still needs to be checked, that's only valid for the
         # mapped value - which we do below - and not for the list we made it from.
         if isinstance(new, FilteredStrategy):
-            new = new.filtered_strategy
+            if new.filtered_strategy is self.mapped_strategy:
+                return super().filter(condition)  # didn't rewrite
+            new = FilteredStrategy(new.filtered_strategy, conditions=())
         if new is self.mapped_strategy:
-            return super().filter(condition)  # didn't rewrite
+            return super().filter(condition)  # already satisfied by any list
 
         # Apply a new outer filter even though we rewrote the inner strategy,
         # because some collections can change the list length (dict, set, etc).
-- 
2.43.0


From 9ca173ba28a143a54be398c690617e0880783d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 27/53] fix: compare lambda source by operations, and only
 search for padding which word boundaries need

---
 .../src/hypothesis/internal/reflection.py      | 15 ++++++++++++++-
 .../hypothesis/strategies/_internal/regex.py   | 18 ++++++++++++++++--
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/reflection.py b/hypothesis-python/src/hypothesis/internal/reflection.py
index da6dc47..874f474 100644
--- a/hypothesis-python/src/hypothesis/internal/reflection.py
+++ b/hypothesis-python/src/hypothesis/internal/reflection.py
@@ -12,6 +12,7 @@
 to really unreasonable lengths to produce pretty output."""
 
 import ast
+import dis
 import hashlib
 import inspect
 import linecache
@@ -293,10 +294,22 @@ SPACE_FOLLOWS_OPEN_BRACKET = re.compile(r"\( ")
 SPACE_PRECEDES_CLOSE_BRACKET = re.compile(r" \)")
 
 
+def _operations(code: CodeType) -> list[str]:
+    # Only the names of the operations, and without those which depend on how the
+    # source code was split into lines.
+    ops = []
+    for instruction in dis.get_instructions(code):
+        if instruction.opname == "RETURN_CONST":
+            ops += ["LOAD_CONST", "RETURN_VALUE"]
+        elif instruction.opname not in ("CACHE", "EXTENDED_ARG", "NOP"):
+            ops.append(instruction.opname)
+    return ops
+
+
 def _equivalent_code(x: Any, y: Any) -> bool:
     if isinstance(x, CodeType) and isinstance(y, CodeType):
         return (
-            x.co_code == y.co_code
+            _operations(x) == _operations(y)
             and x.co_names == y.co_names
             and len(x.co_consts) == len(y.co_consts)
             and all(map(_equivalent_code, x.co_consts, y.co_consts))
diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 00e191f..941ea81 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -154,7 +154,12 @@ class CharactersBuilder:
         if self._negate:
             intervals = charmap.query() - intervals
             multi_chars.clear()
-        # and finally return the intersection with our alphabet
+        # and finally return the intersection with our alphabet, where we prefer
+        # ASCII characters if that's how the pattern is interpreted.
+        if self._ascii:
+            ascii_intervals = intervals & charmap.query(max_codepoint=127)
+            if ascii_intervals & self._alphabet.intervals:
+                intervals = ascii_intervals
         multi_chars = {
             s for s in multi_chars if not chars_not_in_alphabet(self._alphabet, s)
         }
@@ -222,12 +227,19 @@ class BytesBuilder(CharactersBuilder):
         self._whitelist_chars |= BYTES_LOOKUP[category]
 
 
+def has_word_boundary(codes):
+    """Whether the parsed regex contains \\b or \\B, which depend on padding."""
+    if isinstance(codes, (list, tuple, sre_parse.SubPattern)):
+        return any(map(has_word_boundary, codes))
+    return codes is sre.AT_BOUNDARY or codes is sre.AT_NON_BOUNDARY
+
+
 @st.composite
 def maybe_pad(draw, regex, strategy, left_pad_strategy, right_pad_strategy):
     """Attempt to insert padding around the result of a regex draw while
     preserving the match."""
     result = draw(strategy)
-    # Some patterns, such as r"\b", only match with the right padding
+    # Some patterns, such as r"\B", only match with the right padding
     matches = bool(regex.search(result))
     left_pad = draw(left_pad_strategy)
     if left_pad and (not matches or regex.search(left_pad + result)):
@@ -319,6 +331,8 @@ def regex_strategy(
                 left_pad = empty
 
     base = base_regex_strategy(regex, parsed, alphabet)
+    if not has_word_boundary(parsed):
+        base = base.filter(regex.search)
 
     return maybe_pad(regex, base, left_pad, right_pad).filter(regex.search)
 
-- 
2.43.0


From 1cd6b7961914cd1212411685d6dbfd2bd08124de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 28/53] fix: from_regex() skips alternatives which exclude
 every byte

---
 hypothesis-python/src/hypothesis/strategies/_internal/regex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
index 941ea81..4936f88 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/regex.py
@@ -220,6 +220,8 @@ class BytesBuilder(CharactersBuilder):
         allowed = self._whitelist_chars
         if self._negate:
             allowed = BYTES_ALL - allowed
+        if not allowed:
+            raise IncompatibleWithAlphabet("The pattern excludes every possible byte")
         return st.sampled_from(sorted(allowed))
 
     def add_category(self, category):
-- 
2.43.0


From 063c5ae24b5c4ca5c5e5bb881022ece8af0610fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:07 +0000
Subject: [PATCH 29/53] fix: a flaky assumption's error includes the original
 failure

---
 hypothesis-python/src/hypothesis/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 0498522..e7b534d 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1378,7 +1378,7 @@ class StateForActualGivenExecution:
                 err = FlakyFailure(
                     "Unreliable assumption: An example which satisfied "
                     "assumptions on the first run now fails it.",
-                    [e],
+                    [falsifying_example.expected_exception, e],
                 )
                 errors_to_report.append((fragments, err))
             except BaseException as e:
-- 
2.43.0


From 42903e4774c92846eeb2accde396b2a58d729cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 30/53] fix: observe failing explicit examples as failed

---
 hypothesis-python/src/hypothesis/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index e7b534d..b591c08 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -574,6 +574,11 @@ def execute_explicit_examples(state, wrapped_test, arguments, kwargs, original_s
                     err = new
 
                 with contextlib.suppress(StopTest):
+                    if isinstance(err, failure_exceptions_to_catch()) and not (
+                        isinstance(err, skip_exceptions_to_reraise())
+                    ):
+                        origin = InterestingOrigin.from_exception(err)
+                        empty_data.mark_interesting(origin)
                     empty_data.conclude_test(Status.INVALID)
                 yield (fragments_reported, err)
                 if (
-- 
2.43.0


From df8fef747f2d9b390adae29e9381a5997f8b8dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 31/53] fix: argument names in the observation of a minimal
 failing example

---
 hypothesis-python/src/hypothesis/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index b591c08..d3182e6 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1406,7 +1406,10 @@ class StateForActualGivenExecution:
                     "status": "passed" if sys.exc_info()[0] else "failed",
                     "status_reason": str(origin or "unexpected/flaky pass"),
                     "representation": self._string_repr,
-                    "arguments": ran_example._observability_args,
+                    "arguments": {
+                        k.removeprefix("generate:"): v
+                        for k, v in ran_example._observability_args.items()
+                    },
                     "how_generated": "minimal failing example",
                     "features": {
                         **{
-- 
2.43.0


From cf802047f67c095b63b62d35fe8f356df12f5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 32/53] fix: target() reports integers which do not fit in a
 float as invalid

---
 hypothesis-python/src/hypothesis/control.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/control.py b/hypothesis-python/src/hypothesis/control.py
index 9e76b44..30c5010 100644
--- a/hypothesis-python/src/hypothesis/control.py
+++ b/hypothesis-python/src/hypothesis/control.py
@@ -300,7 +300,11 @@ def target(observation: Union[int, float], *, label: str = "") -> Union[int, flo
     example shrinks right down to the threshold of failure (:issue:`2180`).
     """
     check_type((int, float), observation, "observation")
-    if not math.isfinite(observation):
+    try:
+        is_finite = math.isfinite(observation)
+    except OverflowError:  # an integer which is too large to compare as a float
+        is_finite = False
+    if not is_finite:
         raise InvalidArgument(f"{observation=} must be a finite float.")
     check_type(str, label, "label")
 
-- 
2.43.0


From d29262aff28373065d4aa26d49a31a067aca3309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 33/53] fix: clear fixed failures out of the database when they
 end the run

---
 .../src/hypothesis/internal/conjecture/engine.py     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 2d9c760..9efaa7b 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -867,7 +867,17 @@ class ConjectureRunner:
                     # clear out any keys which fail deserialization
                     self.settings.database.delete(self.database_key, existing)
                     continue
-                data = self.cached_test_function(choices, extend="full")
+                try:
+                    data = self.cached_test_function(choices, extend="full")
+                except RunIsComplete:
+                    # This was the last test case that we can run, for example
+                    # because there is no other. It's now cached, so we can still
+                    # clear it out below if it is no longer interesting.
+                    data = self.cached_test_function(choices, extend="full")
+                    if data.status != Status.INTERESTING:
+                        self.settings.database.delete(self.database_key, existing)
+                        self.settings.database.delete(self.secondary_key, existing)
+                    raise
                 if data.status != Status.INTERESTING:
                     self.settings.database.delete(self.database_key, existing)
                     self.settings.database.delete(self.secondary_key, existing)
-- 
2.43.0


From 46129c91d3c4ff01e5efbe55617e81441aee8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 34/53] fix: integers drawn from fuzzer bytes cover the
 requested range

---
 .../src/hypothesis/internal/conjecture/providers.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
index d877d19..35935d8 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
@@ -804,9 +804,9 @@ class BytestringProvider(PrimitiveProvider):
             return min_value
 
         bits = (max_value - min_value).bit_length()
-        value = self._draw_bits(bits)
-        while not (min_value <= value <= max_value):
-            value = self._draw_bits(bits)
+        value = min_value + self._draw_bits(bits)
+        while value > max_value:
+            value = min_value + self._draw_bits(bits)
         return value
 
     def draw_float(
-- 
2.43.0


From cd41a0a2e6f8bde4a458d194721a7705d03a2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 35/53] fix: floats drawn from fuzzer bytes can be negative

---
 .../src/hypothesis/internal/conjecture/providers.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
index 35935d8..a9aaeb1 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/providers.py
@@ -817,7 +817,7 @@ class BytestringProvider(PrimitiveProvider):
         allow_nan: bool = True,
         smallest_nonzero_magnitude: float,
     ) -> float:
-        n = self._draw_bits(64)
+        n = self._draw_bits(65)
         sign = -1 if n >> 64 else 1
         f = sign * lex_to_float(n & ((1 << 64) - 1))
         clamper = make_float_clamper(
-- 
2.43.0


From 8a3b4782bdc9058db41848cc7e22fd0021c33558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:36 +0000
Subject: [PATCH 36/53] fix: fuzz_one_input saves each distinct failure to the
 database

---
 hypothesis-python/src/hypothesis/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index d3182e6..498b507 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -1898,15 +1898,16 @@ def given(
                     state.execute_once(data)
                 except (StopTest, UnsatisfiedAssumption):
                     return None
-                except BaseException:
-                    known = minimal_failures.get(data.interesting_origin)
+                except BaseException as e:
+                    origin = InterestingOrigin.from_exception(e)
+                    known = minimal_failures.get(origin)
                     if settings.database is not None and (
                         known is None or sort_key(data.nodes) <= sort_key(known)
                     ):
                         settings.database.save(
                             database_key, choices_to_bytes(data.choices)
                         )
-                        minimal_failures[data.interesting_origin] = data.nodes
+                        minimal_failures[origin] = data.nodes
                     raise
                 assert isinstance(data.provider, BytestringProvider)
                 return bytes(data.provider.drawn)
-- 
2.43.0


From b9cbd6ece0576bc021bef5242d496999b7c38fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 37/53] fix: explain mode varies only the commented parts
 together

Parts which had turned out not to vary freely were included, so the report
could claim that the test passed when it never did; and the choices after the
last such part were left out, so that usually nothing was reported at all.
---
 .../src/hypothesis/internal/conjecture/shrinker.py          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
index 0aac436..52b6b5e 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/shrinker.py
@@ -592,7 +592,10 @@ class Shrinker:
         if len(self.shrink_target.slice_comments) <= 1:
             return
         n_same_failures_together = 0
-        chunks_by_start_index = sorted(chunks.items())
+        # Only vary the parts which got a comment
+        chunks_by_start_index = sorted(
+            (k, v) for k, v in chunks.items() if k in self.shrink_target.slice_comments
+        )
         for _ in range(500):  # pragma: no branch
             # no-branch here because we don't coverage-test the abort-at-500 logic.
             new_choices: list[ChoiceT] = []
@@ -602,6 +605,7 @@ class Shrinker:
                 new_choices.extend(choices[prev_end:start])
                 new_choices.extend(self.random.choice(ls))
                 prev_end = end
+            new_choices.extend(choices[prev_end:])
 
             result = self.engine.cached_test_function(new_choices)
 
-- 
2.43.0


From 27572577d79bb33851a8fc557c7cee388f580d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:38 +0000
Subject: [PATCH 38/53] fix: a backend can discard a test case which it cannot
 realize

Raising BackendCannotProceed from PrimitiveProvider.realize(), as documented,
could end the whole test with that exception instead.
---
 .../hypothesis/internal/conjecture/engine.py    | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index 9efaa7b..b765ab6 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -473,6 +473,10 @@ class ConjectureRunner:
         interrupted = False
         try:
             self.__stoppable_test_function(data)
+            if self.settings.backend != "hypothesis":
+                # The backend may discard this test case instead of realizing it
+                data.freeze()
+                realize_choices(data)
         except KeyboardInterrupt:
             interrupted = True
             raise
@@ -496,8 +500,14 @@ class ConjectureRunner:
         except BaseException:
             data.freeze()
             if self.settings.backend != "hypothesis":
-                realize_choices(data)
-            self.save_choices(data.choices)
+                try:
+                    realize_choices(data)
+                except BackendCannotProceed:
+                    pass
+                else:
+                    self.save_choices(data.choices)
+            else:
+                self.save_choices(data.choices)
             raise
         finally:
             # No branch, because if we're interrupted we always raise
@@ -515,9 +525,6 @@ class ConjectureRunner:
                     ),
                 }
                 self.stats_per_test_case.append(call_stats)
-                if self.settings.backend != "hypothesis":
-                    realize_choices(data)
-
                 self._cache(data)
                 if data.misaligned_at is not None:  # pragma: no branch # coverage bug?
                     self.misaligned_count += 1
-- 
2.43.0


From 6be8af7d1754e9fae1505bc346a36f5a53bc8737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 39/53] fix: no health check masks a failure of the simplest
 test case

---
 .../src/hypothesis/internal/conjecture/engine.py              | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
index b765ab6..37565be 100644
--- a/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
+++ b/hypothesis-python/src/hypothesis/internal/conjecture/engine.py
@@ -1017,7 +1017,9 @@ class ConjectureRunner:
                 HealthCheck.large_base_example,
             )
 
-        self.health_check_state = HealthCheckState()
+        if not self.interesting_examples:
+            # (as in record_for_health_check, don't mask a bug which we've already found)
+            self.health_check_state = HealthCheckState()
 
         # We attempt to use the size of the minimal generated test case starting
         # from a given novel prefix as a guideline to generate smaller test
-- 
2.43.0


From c96b2fc4dbf322aee8062bd37fd0f430e734b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 40/53] fix: loading an unknown profile leaves the current one
 in place

---
 hypothesis-python/src/hypothesis/_settings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index f341ecb..cb70cae 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -866,8 +866,8 @@ class settings(metaclass=settingsMeta):
         defined default for that setting.
         """
         check_type(str, name, "name")
-        settings._current_profile = name
         default_variable.value = settings.get_profile(name)
+        settings._current_profile = name
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 644a9eb65aa98fb4691b7594714c08afe6f002af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 41/53] fix: invalid settings values always raise
 InvalidArgument

---
 hypothesis-python/src/hypothesis/_settings.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/_settings.py b/hypothesis-python/src/hypothesis/_settings.py
index cb70cae..1423e91 100644
--- a/hypothesis-python/src/hypothesis/_settings.py
+++ b/hypothesis-python/src/hypothesis/_settings.py
@@ -287,7 +287,10 @@ def _validate_database(
 
 
 def _validate_phases(phases: Collection[Phase]) -> Sequence[Phase]:
-    phases = tuple(phases)
+    try:
+        phases = tuple(phases)
+    except TypeError:
+        raise InvalidArgument(f"{phases!r} is not a collection of phases") from None
     for phase in phases:
         if not isinstance(phase, Phase):
             raise InvalidArgument(f"{phase!r} is not a valid phase")
@@ -304,6 +307,10 @@ def _validate_stateful_step_count(stateful_step_count: int) -> int:
 
 
 def _validate_suppress_health_check(suppressions):
+    if suppressions is None:
+        raise InvalidArgument(
+            "suppress_health_check must be a collection of health checks, not None"
+        )
     suppressions = try_convert(tuple, suppressions, "suppress_health_check")
     for health_check in suppressions:
         if not isinstance(health_check, HealthCheck):
@@ -341,18 +348,20 @@ def _validate_deadline(
                 f"deadline={x!r} is invalid, because it is too large to represent "
                 "as a timedelta. Use deadline=None to disable deadlines."
             ) from None
+        except ValueError:  # nan
+            raise invalid_deadline_error from None
     if isinstance(x, datetime.timedelta):
         if x <= datetime.timedelta(0):
             raise InvalidArgument(
                 f"deadline={x!r} is invalid, because it is impossible to meet a "
                 "deadline <= 0. Use deadline=None to disable deadlines."
             )
-        return duration(seconds=x.total_seconds())
+        return duration(days=x.days, seconds=x.seconds, microseconds=x.microseconds)
     raise invalid_deadline_error
 
 
 def _validate_backend(backend: str) -> str:
-    if backend not in AVAILABLE_PROVIDERS:
+    if not isinstance(backend, str) or backend not in AVAILABLE_PROVIDERS:
         if backend == "crosshair":  # pragma: no cover
             install = '`pip install "hypothesis[crosshair]"` and try again.'
             raise InvalidArgument(f"backend={backend!r} is not available.  {install}")
-- 
2.43.0


From 5938610e6d7ba53066d2160279e869d6eb510c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 42/53] fix: Bundle(consume=True) consumes the values of direct
 rule arguments

---
 hypothesis-python/src/hypothesis/stateful.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 2ade095..526ab44 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -482,8 +482,7 @@ class Rule:
             assert not isinstance(v, BundleReferenceStrategy)
             if isinstance(v, Bundle):
                 bundles.append(v)
-                consume = isinstance(v, BundleConsumer)
-                v = BundleReferenceStrategy(v.name, consume=consume)
+                v = BundleReferenceStrategy(v.name, consume=v.consume)
             self.arguments_strategies[k] = v
         self.bundles = tuple(bundles)
 
@@ -542,6 +541,7 @@ class Bundle(SearchStrategy[Ex]):
         self, name: str, *, consume: bool = False, draw_references: bool = True
     ) -> None:
         self.name = name
+        self.consume = consume
         self.__reference_strategy = BundleReferenceStrategy(name, consume=consume)
         self.draw_references = draw_references
 
-- 
2.43.0


From 4615a73cb97c43fce674b187a8751e6c2cc99916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:28 +0000
Subject: [PATCH 43/53] fix: a result added to several bundles is assigned to
 all their variables in the printed program

---
 hypothesis-python/src/hypothesis/stateful.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/stateful.py b/hypothesis-python/src/hypothesis/stateful.py
index 526ab44..4ac6d1c 100644
--- a/hypothesis-python/src/hypothesis/stateful.py
+++ b/hypothesis-python/src/hypothesis/stateful.py
@@ -392,13 +392,15 @@ class RuleBasedStateMachine(metaclass=StateMachineMeta):
         if rule.targets:
             if isinstance(result, MultipleResults):
                 if len(result.values) == 1:
-                    output_assignment = f"({self._last_names(1)[0]},) = "
+                    output_names = self._last_names(len(rule.targets))
+                    output_assignment = "".join(f"({name},) = " for name in output_names)
                 elif result.values:
                     number_of_last_names = len(rule.targets) * len(result.values)
                     output_names = self._last_names(number_of_last_names)
                     output_assignment = ", ".join(output_names) + " = "
             else:
-                output_assignment = self._last_names(1)[0] + " = "
+                output_names = self._last_names(len(rule.targets))
+                output_assignment = "".join(f"{name} = " for name in output_names)
         args = ", ".join("%s=%s" % kv for kv in data.items())
         return f"{output_assignment}state.{rule.function.__name__}({args})"
 
-- 
2.43.0


From ed94fb001e1a106555c62634df018846338682db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:46 +0000
Subject: [PATCH 44/53] fix: @given tests can be called with values for *args
 after ordinary arguments

---
 hypothesis-python/src/hypothesis/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/core.py b/hypothesis-python/src/hypothesis/core.py
index 498b507..24ee516 100644
--- a/hypothesis-python/src/hypothesis/core.py
+++ b/hypothesis-python/src/hypothesis/core.py
@@ -106,6 +106,7 @@ from hypothesis.internal.observability import (
     make_testcase,
 )
 from hypothesis.internal.reflection import (
+    convert_keyword_arguments,
     convert_positional_arguments,
     define_function_signature,
     function_digest,
@@ -647,14 +648,18 @@ def process_arguments_to_given(
     params: dict[str, Parameter],
 ) -> tuple[Sequence[object], dict[str, object], Stuff]:
     selfy = None
+    as_passed = (arguments, kwargs)
     arguments, kwargs = convert_positional_arguments(wrapped_test, arguments, kwargs)
+    if len(arguments) > sum(p.kind is p.POSITIONAL_ONLY for p in params.values()):
+        # There are values for *args, so everything before it is passed by position.
+        arguments, kwargs = convert_keyword_arguments(wrapped_test, *as_passed)
 
     # If the test function is a method of some kind, the bound object
     # will be the first named argument if there are any, otherwise the
     # first vararg (if any).
     posargs = [p.name for p in params.values() if p.kind is p.POSITIONAL_OR_KEYWORD]
-    if posargs:
-        selfy = kwargs.get(posargs[0])
+    if posargs and posargs[0] in kwargs:
+        selfy = kwargs[posargs[0]]
     elif arguments:
         selfy = arguments[0]
 
-- 
2.43.0


From d6411b97c7e5a8fb1623436fd94f54156528876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 45/53] fix: print dataclass instances without ClassVar
 pseudo-fields

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index b31404b..e0f7f00 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -63,6 +63,7 @@ Inheritance diagram:
 """
 
 import ast
+import dataclasses
 import datetime
 import re
 import struct
@@ -248,11 +249,7 @@ class RepresentationPrinter:
                                     obj,
                                     self,
                                     cycle,
-                                    [
-                                        k
-                                        for k, v in cls.__dataclass_fields__.items()
-                                        if v.init
-                                    ],
+                                    [f.name for f in dataclasses.fields(cls) if f.init],
                                 )
                 # Now check for object-specific printers which show how this
                 # object was constructed (a Hypothesis special feature).
-- 
2.43.0


From 2dff3d45382196ab7bdd4506a3b8ac0dbad09059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 46/53] fix: print private attributes of attrs classes by their
 argument names

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index e0f7f00..7bfd233 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -243,6 +243,11 @@ class RepresentationPrinter:
                                     self,
                                     cycle,
                                     [at.name for at in cls.__attrs_attrs__ if at.init],
+                                    # Private attributes have public argument names
+                                    {
+                                        at.name: getattr(at, "alias", None) or at.name
+                                        for at in cls.__attrs_attrs__
+                                    },
                                 )
                             if hasattr(cls, "__dataclass_fields__"):
                                 return pprint_fields(
@@ -785,7 +790,11 @@ def _repr_pprint(obj: object, p: RepresentationPrinter, cycle: bool) -> None:
 
 
 def pprint_fields(
-    obj: object, p: RepresentationPrinter, cycle: bool, fields: Iterable[str]
+    obj: object,
+    p: RepresentationPrinter,
+    cycle: bool,
+    fields: Iterable[str],
+    aliases: Optional[dict[str, str]] = None,
 ) -> None:
     name = get_class_name(obj.__class__)
     if cycle:
@@ -795,7 +804,7 @@ def pprint_fields(
             if idx:
                 p.text(",")
                 p.breakable()
-            p.text(field)
+            p.text((aliases or {}).get(field, field))
             p.text("=")
             p.pretty(getattr(obj, field))
 
-- 
2.43.0


From ad041c6bd8f3895c2f290824852955143e7fee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 47/53] fix: print members of IntEnum, IntFlag and StrEnum as
 code

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index 7bfd233..a36dc7d 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -221,6 +221,9 @@ class RepresentationPrinter:
                 #   1) a registered printer
                 #   2) a _repr_pretty_ method
                 for cls in obj_class.__mro__:
+                    if issubclass(type(obj), Enum) and not issubclass(cls, Enum):
+                        # Members of e.g. an IntEnum are still shown by name.
+                        continue
                     if cls in self.type_pprinters:
                         # printer registered in self.type_pprinters
                         return self.type_pprinters[cls](obj, self, cycle)
-- 
2.43.0


From 778ec097c7b1bec8c8ebdf382d8dea5595573dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 48/53] fix: pretty-print the fields of namedtuples

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index a36dc7d..e6c4a6e 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -609,6 +609,11 @@ def _seq_pprinter_factory(start: str, end: str, basetype: type) -> PrettyPrintFu
             and typ is not basetype
             and typ.__repr__ != basetype.__repr__  # type: ignore[comparison-overlap]
         ):
+            if hasattr(typ, "_fields") and typ.__repr__.__module__ == "collections":
+                # The repr of a namedtuple would not pretty-print the fields.
+                if cycle:
+                    return p.text(f"{typ.__name__}(...)")
+                return p.repr_call(typ.__name__, (), obj._asdict())  # type: ignore
             # If the subclass provides its own repr, use it instead.
             return p.text(typ.__repr__(obj))
 
-- 
2.43.0


From 589aac9254f682919bb329db2b7955a28e39cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 49/53] fix: pretty-printing an exception in its own args
 terminates

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index e6c4a6e..7cc314f 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -835,6 +835,8 @@ def _exception_pprint(
     name = getattr(obj.__class__, "__qualname__", obj.__class__.__name__)
     if obj.__class__.__module__ not in ("exceptions", "builtins"):
         name = f"{obj.__class__.__module__}.{name}"
+    if cycle:
+        return p.text(f"{name}(...)")
     step = len(name) + 1
     with p.group(step, name + "(", ")"):
         for idx, arg in enumerate(getattr(obj, "args", ())):
-- 
2.43.0


From 4c764ce23067ed4b8d48d1b6d25a14e8da769223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 50/53] fix: print Decimals as Decimals, not as calls to an
 internal function

---
 hypothesis-python/src/hypothesis/vendor/pretty.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hypothesis-python/src/hypothesis/vendor/pretty.py b/hypothesis-python/src/hypothesis/vendor/pretty.py
index 7cc314f..b0f41ee 100644
--- a/hypothesis-python/src/hypothesis/vendor/pretty.py
+++ b/hypothesis-python/src/hypothesis/vendor/pretty.py
@@ -998,5 +998,6 @@ for_type_by_name("ordereddict", "OrderedDict", _ordereddict_pprint)
 for_type_by_name("collections", "deque", _deque_pprint)
 for_type_by_name("collections", "Counter", _counter_pprint)
 for_type_by_name("pandas.core.frame", "DataFrame", _repr_dataframe)
+for_type_by_name("decimal", "Decimal", _repr_pprint)
 for_type_by_name("enum", "Enum", _repr_enum)
 for_type_by_name("functools", "partial", _repr_partial)
-- 
2.43.0


From 588ddd3e9f27f901dd1209293882d4a20aa56aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 51/53] fix: a generated Random in a previous state does not
 reuse results for other arguments

---
 .../src/hypothesis/strategies/_internal/random.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index e28b259..1692db8 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -216,8 +216,10 @@ class ArtificialRandom(HypothesisRandom):
             key = (method, len(kwargs["seq"]))
         elif method == "shuffle":
             key = (method, len(kwargs["x"]))
+        elif method == "sample":
+            key = (method, len(kwargs["population"]), kwargs["k"])
         else:
-            key = (method, *sorted(kwargs))
+            key = (method, *sorted(kwargs.items()))
 
         try:
             result, self.__state = self.__state.next_states[key]
-- 
2.43.0


From d685c82b0cc32651ee8051e0d1d72bdbfcf325d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 52/53] fix: generated Random.uniform(a, b) accepts a > b, as
 Random.uniform does

---
 hypothesis-python/src/hypothesis/strategies/_internal/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 1692db8..156348b 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -239,7 +239,7 @@ class ArtificialRandom(HypothesisRandom):
         elif method == "uniform":
             a = normalize_zero(kwargs["a"])
             b = normalize_zero(kwargs["b"])
-            result = self.__data.draw(floats(a, b))
+            result = self.__data.draw(floats(min(a, b), max(a, b)))
         elif method in ("weibullvariate", "gammavariate"):
             result = self.__data.draw(floats(min_value=0.0, allow_infinity=False))
         elif method in ("gauss", "normalvariate"):
-- 
2.43.0


From 260cfcbf33a252cf3df7163b7696fe20be23ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 53/53] fix: generated Random.paretovariate() is at least one

---
 .../src/hypothesis/strategies/_internal/random.py             | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hypothesis-python/src/hypothesis/strategies/_internal/random.py b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
index 156348b..6248df7 100644
--- a/hypothesis-python/src/hypothesis/strategies/_internal/random.py
+++ b/hypothesis-python/src/hypothesis/strategies/_internal/random.py
@@ -320,7 +320,9 @@ class ArtificialRandom(HypothesisRandom):
                 result = self.__data.draw(floats(mode, high))
             else:
                 result = self.__data.draw(floats(low, mode))
-        elif method in ("paretovariate", "expovariate", "lognormvariate"):
+        elif method == "paretovariate":
+            result = self.__data.draw(floats(min_value=1.0))
+        elif method in ("expovariate", "lognormvariate"):
             result = self.__data.draw(floats(min_value=0.0))
         elif method == "shuffle":
             result = self.__data.draw(permutations(range(len(kwargs["x"]))))
-- 
2.43.0

