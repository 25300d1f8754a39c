From 226c96a77507f20b2ab21c7dad6a38354a94294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 001/147] fix: rewrite() leaves no temporary file behind when
 the visitor or a row fails

---
 src/csvw/dsv.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..5094ef6 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -399,12 +399,16 @@ def rewrite(fname: typing.Union[str, pathlib.Path],
     with tempfile.NamedTemporaryFile(delete=False) as fp:
         tmp = pathlib.Path(fp.name)
 
-    with UnicodeReader(fname, **kw) as reader_:
-        with UnicodeWriter(tmp, **kw) as writer:
-            for i, row in enumerate(reader_):
-                row = visitor(i, row)
-                if row is not None:
-                    writer.writerow(row)
+    try:
+        with UnicodeReader(fname, **kw) as reader_:
+            with UnicodeWriter(tmp, **kw) as writer:
+                for i, row in enumerate(reader_):
+                    row = visitor(i, row)
+                    if row is not None:
+                        writer.writerow(row)
+    except BaseException:
+        tmp.unlink()  # Don't leave partial output behind.
+        raise
     shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
 
 
-- 
2.43.0


From 1bdfb38948aa2c7041f5bf0d32398bd01dd241b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 002/147] fix: INF is an invalid value (ValueError) for integer
 datatypes

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..fa98ad1 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -614,6 +614,8 @@ class integer(decimal):
     @classmethod
     def to_python(cls, v, **kw):
         res = decimal.to_python(v, **kw)
+        if not res.is_finite():
+            cls.value_error(v)
         numerator, denominator = res.as_integer_ratio()
         if denominator == 1:
             if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):
-- 
2.43.0


From e8430ee584958107fcc7d4c771ac4a00aae79187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 003/147] fix: decimals are formatted positionally, whatever
 their exponent

---
 src/csvw/datatypes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index fa98ad1..3d0a5ac 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -577,7 +577,13 @@ class decimal(anyAtomicType):
                 v = v.replace(',', groupChar)
             return v
 
-        fmt = '{}' if groupChar is None else '{:,}'
+        if isinstance(v, float) and math.isfinite(v):
+            v = _decimal.Decimal(repr(v))
+        if isinstance(v, _decimal.Decimal):
+            # Python may switch to scientific notation, which is not allowed for xs:decimal.
+            fmt = '{:f}' if groupChar is None else '{:,f}'
+        else:
+            fmt = '{}' if groupChar is None else '{:,}'
         try:
             neg = v < 0
         except TypeError:
-- 
2.43.0


From 6f799b494a789f1b99b68bc7945420e3ca7d210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 004/147] fix: groupChar and decimalChar are applied
 independently of each other

---
 src/csvw/datatypes.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 3d0a5ac..4d29d53 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -476,6 +476,13 @@ class yearMonthDuration(duration):
     name = 'yearMonthDuration'
 
 
+def replace_chars(s: str, mapping: dict) -> str:
+    """
+    Simultaneous replacement, i.e. the result of a replacement is not subject to another one.
+    """
+    return re.sub('|'.join(re.escape(c) for c in mapping), lambda m: mapping[m.group()], s)
+
+
 @register
 class decimal(anyAtomicType):
     """
@@ -540,7 +547,7 @@ class decimal(anyAtomicType):
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
         if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
+                replace_chars(v, {groupChar or ',': ',', decimalChar or '.': '.'})):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
@@ -571,11 +578,7 @@ class decimal(anyAtomicType):
 
         if pattern:
             v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
         if isinstance(v, float) and math.isfinite(v):
             v = _decimal.Decimal(repr(v))
@@ -598,15 +601,7 @@ class decimal(anyAtomicType):
             return '{}{}{}.0'.format(sign, digits, zero_padding) if exp > 0 else (
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
-        if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
-        return v
+        return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
 
 @register
-- 
2.43.0


From c5514e209b1a44ed6f6257611ef775539515a97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 005/147] fix: string formats must match the whole value,
 including a trailing newline

---
 src/csvw/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4d29d53..9aa14d2 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -95,10 +95,10 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
+            # We wrap a regex specified as `format` property into a group and add `\Z` to
             # make sure the whole string is matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile(r'({})\Z'.format(datatype.format))}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
-- 
2.43.0


From b4104fc09d8edc4aa57a2e58ae40db1438ed6d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 006/147] fix: normalizedString honours the format property

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 9aa14d2..8f92c10 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -889,7 +889,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From d11be5c574966183a4bc4fe1cfe8a02f1f01faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 007/147] fix: duration formats must match the whole value

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 8f92c10..170776b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -451,7 +451,7 @@ class duration(anyAtomicType):
 
     @staticmethod
     def to_python(v, format=None, **kw):
-        if format and not re.match(format, v):
+        if format and not re.fullmatch(format, v):
             raise ValueError
         return isodate.parse_duration(v)
 
-- 
2.43.0


From 492c33f9efb91b25331ecb5cb919f9c4bdf48fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 008/147] fix: values which cannot be compared with a bound are
 invalid (ValueError)

---
 src/csvw/metadata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..d9c1d5f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -646,6 +646,13 @@ class Datatype(DescriptionBase):
         return self.basetype.to_python(v, **self.derived_description)
 
     def validate(self, v):
+        try:
+            return self._validate(v)
+        except (TypeError, decimal.InvalidOperation):
+            # E.g. a datetime without timezone and a bound with timezone.
+            raise ValueError('value cannot be compared with the bounds: {}'.format(v))
+
+    def _validate(self, v):
         if v is None:
             return v
         try:
-- 
2.43.0


From 2d696266b29d9eddfa70ee94b9ecdeb4e0b64597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 009/147] fix: length constraints of anyURI apply to the URI

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d9c1d5f..760945c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -656,7 +656,7 @@ class Datatype(DescriptionBase):
         if v is None:
             return v
         try:
-            l_ = len(v or '')
+            l_ = len(v.unsplit() if hasattr(v, 'unsplit') else v or '')
             if self.length is not None and l_ != self.length:
                 raise ValueError('value must have length {}'.format(self.length))
             if self.minLength is not None and l_ < self.minLength:
-- 
2.43.0


From 9b2a8397e3e2ce666e1e7085aa27e594501be6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 010/147] fix: bounds and lengths of 0 are recognized when
 checking datatype descriptions

---
 src/csvw/metadata.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 760945c..8a39a5f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -579,7 +579,7 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 tuple((DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']))):
-            if any([getattr(self, at) for at in
+            if any([getattr(self, at) is not None for at in
                     'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()]):
                 raise ValueError(
                     'Applications MUST raise an error if minimum, minInclusive, maximum, '
@@ -589,23 +589,30 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 (DATATYPES['string'], DATATYPES['base64Binary'], DATATYPES['hexBinary'])):
-            if self.length or self.minLength or self.maxLength:
+            if any(at is not None for at in [self.length, self.minLength, self.maxLength]):
                 raise ValueError(
                     'Applications MUST raise an error if length, maxLength, or minLength are '
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        def both(a, b):
+            return a is not None and b is not None
+
+        if both(self.minInclusive, self.minExclusive) or both(self.maxInclusive, self.maxExclusive):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
+        if (both(self.minInclusive, self.maxExclusive) and
+            self.maxExclusive <= self.minInclusive) or \
+                (both(self.minInclusive, self.maxInclusive) and
+                 self.maxInclusive < self.minInclusive):
             raise ValueError('')
 
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
+        if (both(self.minExclusive, self.maxExclusive) and
+            self.maxExclusive <= self.minExclusive) or \
+                (both(self.minExclusive, self.maxInclusive) and
+                 self.maxInclusive <= self.minExclusive):
             raise ValueError('')
 
         if 'id' in self.at_props and any(
-- 
2.43.0


From 0059d1e68d5df7f441e754aa69234ce50ce4abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 011/147] fix: date and time values must match the specified
 format completely

---
 src/csvw/datatypes.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 170776b..2afc42d 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -280,6 +280,17 @@ class boolean(anyAtomicType):
         return (true if v else false)[0]
 
 
+def match_datetime(regex: re.Pattern, v: str, tz: bool) -> typing.Union[re.Match, None]:
+    """
+    :return: A match, if `v` consists of what `regex` describes and - with `tz` - a timezone.
+    """
+    match = regex.match(v)
+    if match and not match.groupdict().get('extramicroseconds'):
+        rem = v[match.end():].strip()
+        if not rem or (tz and re.fullmatch('Z|[+-][0-9]{2}(:?[0-9]{2})?', rem)):
+            return match
+
+
 def with_tz(v, func, args, kw):
     tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
     tz = tz_pattern.search(v)
@@ -312,7 +323,7 @@ class dateTime(anyAtomicType):
     def _parse(v, cls, regex, tz_marker=None):
         v = v.strip()
         try:
-            comps = regex.match(v).groupdict()
+            comps = match_datetime(regex, v, bool(tz_marker)).groupdict()
         except AttributeError:  # pragma: no cover
             dateTime.value_error(v)
         if comps.get('extramicroseconds'):
@@ -336,7 +347,7 @@ class dateTime(anyAtomicType):
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern and regex:
-            match = regex.match(v)
+            match = match_datetime(regex, v, True)
             if not match:
                 raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))  # pragma:
         try:
@@ -378,7 +389,10 @@ class date(dateTime):
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         return with_tz(
-            v.strip(), dateTime.to_python, [], dict(regex=regex, fmt=fmt, pattern=pattern))
+            v.strip(),
+            dateTime.to_python,
+            [],
+            dict(regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern))
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -419,6 +433,8 @@ class _time(dateTime):
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern and 'x' in pattern.lower():
+            if not match_datetime(regex, v, True):
+                dateTime.value_error(v)
             return dateutil.parser.parse('{}T{}'.format(datetime.date.today().isoformat(), v))
         assert regex is not None
         return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
-- 
2.43.0


From 55ee027343289dc530e1e1bf74cb5b0bd8826003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 012/147] fix: only digits in the form specified by XML Schema
 are valid decimals

---
 src/csvw/datatypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 2afc42d..08557d0 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -582,6 +582,9 @@ class decimal(anyAtomicType):
                     break
             else:
                 factor = 1
+            # Python recognizes more, e.g. "1_000", non-ASCII digits or "infinity".
+            if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', v.strip()):
+                decimal.value_error(v)
         try:
             return _decimal.Decimal(v) * factor
         except (TypeError, _decimal.InvalidOperation):
-- 
2.43.0


From 2dd37a2f1332213ffc615405d24cd5c10aa29020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 013/147] fix: numbers with decimal point are invalid for
 integer datatypes

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 08557d0..e3510ea 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -633,6 +633,8 @@ class integer(decimal):
 
     @classmethod
     def to_python(cls, v, **kw):
+        if isinstance(v, str) and (kw.get('decimalChar') or '.') in v:
+            cls.value_error(v)
         res = decimal.to_python(v, **kw)
         if not res.is_finite():
             cls.value_error(v)
-- 
2.43.0


From 52cfbe0e87519fe0182fffa77a40e69cd2739963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 014/147] fix: decimals and integers of more than 28 digits are
 read without loss

---
 src/csvw/datatypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index e3510ea..6ee089b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -586,7 +586,9 @@ class decimal(anyAtomicType):
             if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', v.strip()):
                 decimal.value_error(v)
         try:
-            return _decimal.Decimal(v) * factor
+            res = _decimal.Decimal(v)
+            # Arithmetic is subject to rounding to the precision of the decimal context.
+            return res if factor == 1 else res * factor
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From 48cf11f43b0a58fb825cc4759a920bf0caab2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 015/147] fix: timezones are read and written as specified by
 the timezone marker, for all date formats

---
 src/csvw/datatypes.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6ee089b..441d01b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -346,14 +346,22 @@ class dateTime(anyAtomicType):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
+        tz = None
         if pattern and regex:
             match = match_datetime(regex, v, True)
             if not match:
                 raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))  # pragma:
+            if tz_marker:
+                # Make sure a timezone like "+01" isn't mistaken for a component of the date.
+                v, tz = match.group(), v[match.end():].strip()
         try:
-            return dateutil.parser.isoparse(v)
+            res = dateutil.parser.isoparse(v)
         except ValueError:
-            return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+            res = dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+        if tz:
+            tzinfo = dateutil.parser.isoparse('2000-01-01T00:00:00{}'.format(tz)).tzinfo
+            res = res.replace(tzinfo=tzinfo)
+        return res
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -398,6 +406,9 @@ class date(dateTime):
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         from babel.dates import format_date
         if pattern:
+            if tz_marker and getattr(v, 'tzinfo', None):
+                return babel.dates.format_datetime(
+                    v, tzinfo=v.tzinfo, format=pattern, locale='en')
             return format_date(v, format=pattern, locale='en')
         return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
 
-- 
2.43.0


From a21c4b7becfe8c4c1b12b0fb98734cb77fb9ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 016/147] fix: fractions of seconds and negative timezone
 offsets are formatted exactly

---
 src/csvw/datatypes.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 441d01b..2789b30 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -291,6 +291,32 @@ def match_datetime(regex: re.Pattern, v: str, tz: bool) -> typing.Union[re.Match
             return match
 
 
+def exact_pattern(v: typing.Union[datetime.datetime, datetime.time], pattern: str) -> str:
+    """
+    Replace fields of a pattern for which babel computes inexact results with literals, namely
+    fractions of seconds (computed using float) and (fractional negative) timezone offsets.
+    """
+    def fraction(m):
+        return '{:06d}'.format(v.microsecond).ljust(len(m.group()), '0')[:len(m.group())]
+
+    def timezone(m):
+        marker = m.group()
+        minutes = round(v.utcoffset().total_seconds() / 60)
+        if not minutes and 'X' in marker:
+            return "'Z'"
+        sign = '-' if minutes < 0 else '+'
+        hours, minutes = divmod(abs(minutes), 60)
+        if len(marker) == 1 and not minutes:
+            return '{}{:02d}'.format(sign, hours)
+        return '{}{:02d}{}{:02d}'.format(sign, hours, ':' if len(marker) == 3 else '', minutes)
+
+    if hasattr(v, 'microsecond'):
+        pattern = re.sub('S+', fraction, pattern)
+        if v.utcoffset() is not None:
+            pattern = re.sub('[xX]{1,3}$', timezone, pattern)
+    return pattern
+
+
 def with_tz(v, func, args, kw):
     tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
     tz = tz_pattern.search(v)
@@ -357,7 +383,7 @@ class dateTime(anyAtomicType):
         try:
             res = dateutil.parser.isoparse(v)
         except ValueError:
-            res = dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+            res = dateTime._parse(v, datetime.datetime, regex)
         if tz:
             tzinfo = dateutil.parser.isoparse('2000-01-01T00:00:00{}'.format(tz)).tzinfo
             res = res.replace(tzinfo=tzinfo)
@@ -366,7 +392,8 @@ class dateTime(anyAtomicType):
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
+            return babel.dates.format_datetime(
+                v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern))
         return v.isoformat()
 
 
@@ -408,7 +435,7 @@ class date(dateTime):
         if pattern:
             if tz_marker and getattr(v, 'tzinfo', None):
                 return babel.dates.format_datetime(
-                    v, tzinfo=v.tzinfo, format=pattern, locale='en')
+                    v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern), locale='en')
             return format_date(v, format=pattern, locale='en')
         return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
 
@@ -452,7 +479,7 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
+        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern))
 
 
 @register
-- 
2.43.0


From 402695484b90e7aa0339a8aa2364f985cca5900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 017/147] fix: leading zeros count as digits when checking
 values against number patterns

---
 src/csvw/datatypes.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 2789b30..1fc75cb 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1301,21 +1301,8 @@ class NumberPattern:
         integral_part, _, decimal_part = s.partition('.')
         decimal_part, _, exponent = decimal_part.lower().partition('e')
         groups = integral_part.split(',')
-        significant, leadingzero, skip = [], False, True
-        for c in ''.join(groups):
-            if c in ['+', '-', '%',  # fixme: permil
-                     ]:
-                continue
-            if c == '0' and skip:
-                leadingzero = True
-                continue
-            if c != '0':
-                skip = False
-            significant.append(c)
-        if not significant and leadingzero:
-            significant = ['0']
         if self.min_digits_before_decimal_point and \
-                len(significant) < self.min_digits_before_decimal_point:
+                len(digits(''.join(groups))) < self.min_digits_before_decimal_point:
             return False
         if self.primary_grouping_size and groups:
             if len(digits(groups[-1])) > self.primary_grouping_size:
-- 
2.43.0


From 77493b667d7c4c65f0bd12ec995f33ff178878d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 018/147] fix: number formats apply to float datatypes when
 reading and writing

---
 src/csvw/datatypes.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 1fc75cb..4c7e45d 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -895,18 +895,28 @@ class _float(anyAtomicType):
         return {}
 
     @staticmethod
-    def to_python(v, pattern=None, **kw):
+    def to_python(v, pattern=None, decimalChar=None, groupChar=None, **kw):
+        if isinstance(v, str) and (decimalChar or groupChar):
+            v = replace_chars(v, {groupChar or ',': ',', decimalChar or '.': '.'})
+
         if pattern and not NumberPattern(pattern).is_valid(v):
             raise ValueError(
                 'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
 
+        if isinstance(v, str) and (groupChar or (pattern and ',' in pattern)):
+            v = v.replace(',', '')
+
         try:
             return float(v)
         except (TypeError, ValueError):
             _float.value_error(v)
 
     @staticmethod
-    def to_string(v, **kw):
+    def to_string(v, pattern=None, decimalChar=None, groupChar=None, **kw):
+        if (pattern or decimalChar or groupChar) and math.isfinite(v):
+            v = babel.numbers.format_decimal(v, pattern, 'en') if pattern \
+                else ('{:,}' if groupChar else '{}').format(v)
+            return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
         return '{}'.format(v)
 
 
-- 
2.43.0


From 2e5507e56d12dddba22b0202ac689a6b5e6de9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 019/147] fix: all zeros of the integer part of a number
 pattern count, across groups

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4c7e45d..2dfcb34 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1264,7 +1264,7 @@ class NumberPattern:
 
     @property
     def min_digits_before_decimal_point(self):
-        integral_part = self.positive.split('.')[0]
+        integral_part = self.positive.split('.')[0].replace(',', '')
         match = re.search('([0]+)$', integral_part)
         if match:
             return len(match.groups()[0])
-- 
2.43.0


From f18e24d8f8eb02bc1738e741a0c051890e0f4811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 020/147] fix: repeated group characters are invalid for float
 datatypes, too

---
 src/csvw/datatypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 2dfcb34..0373c46 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -896,6 +896,9 @@ class _float(anyAtomicType):
 
     @staticmethod
     def to_python(v, pattern=None, decimalChar=None, groupChar=None, **kw):
+        if isinstance(v, str) and groupChar and groupChar * 2 in v:
+            _float.value_error(v)
+
         if isinstance(v, str) and (decimalChar or groupChar):
             v = replace_chars(v, {groupChar or ',': ',', decimalChar or '.': '.'})
 
-- 
2.43.0


From 80977106879f98d7a69e09d286b1d24cab5cffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:25 +0000
Subject: [PATCH 021/147] fix: minimal number of integer digits is enforced for
 percent and per-mille patterns

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 0373c46..b4cf8b2 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1267,7 +1267,7 @@ class NumberPattern:
 
     @property
     def min_digits_before_decimal_point(self):
-        integral_part = self.positive.split('.')[0].replace(',', '')
+        integral_part = self.positive.split('.')[0].replace(',', '').rstrip('%‰')
         match = re.search('([0]+)$', integral_part)
         if match:
             return len(match.groups()[0])
-- 
2.43.0


From 9f02e59f15a82e3a8555e361e405d64b094e0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 022/147] fix: decimal bounds specified as JSON numbers are
 taken literally

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index b4cf8b2..ff3fd59 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -624,7 +624,7 @@ class decimal(anyAtomicType):
             if not re.fullmatch(r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)', v.strip()):
                 decimal.value_error(v)
         try:
-            res = _decimal.Decimal(v)
+            res = _decimal.Decimal(repr(v) if isinstance(v, float) else v)
             # Arithmetic is subject to rounding to the precision of the decimal context.
             return res if factor == 1 else res * factor
         except (TypeError, _decimal.InvalidOperation):
-- 
2.43.0


From a26194d9e86cba383860d4789f26fbe9117909fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 023/147] fix: bounds specified as JSON numbers are not subject
 to the datatype format

---
 src/csvw/metadata.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8a39a5f..fcb13ef 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -558,8 +558,17 @@ class Datatype(DescriptionBase):
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
-            if getattr(self, attr_) is not None:
-                setattr(self, attr_, self.parse(getattr(self, attr_)))
+            bound = getattr(self, attr_)
+            if bound is not None:
+                try:
+                    setattr(
+                        self,
+                        attr_,
+                        self.parse(bound) if isinstance(bound, str) or not isinstance(
+                            self.basetype(), (DATATYPES['decimal'], DATATYPES['float']))
+                        else self.basetype.to_python(bound))
+                except (TypeError, AttributeError):
+                    raise ValueError('Invalid value for {}: {}'.format(attr_, bound))
 
         if self.length is not None:
             if self.minLength is not None and self.length < self.minLength:
-- 
2.43.0


From 7de1355272e4466041d6d6be96f9e0158cfae590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 024/147] fix: minimum and maximum are checked for consistency,
 and incomparable bounds rejected

---
 src/csvw/metadata.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fcb13ef..cfd4297 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -607,22 +607,27 @@ class Datatype(DescriptionBase):
         def both(a, b):
             return a is not None and b is not None
 
-        if both(self.minInclusive, self.minExclusive) or both(self.maxInclusive, self.maxExclusive):
-            raise ValueError(
-                'Applications MUST raise an error if both minInclusive and minExclusive are '
-                'specified, or if both maxInclusive and maxExclusive are specified.')
-
-        if (both(self.minInclusive, self.maxExclusive) and
-            self.maxExclusive <= self.minInclusive) or \
-                (both(self.minInclusive, self.maxInclusive) and
-                 self.maxInclusive < self.minInclusive):
-            raise ValueError('')
-
-        if (both(self.minExclusive, self.maxExclusive) and
-            self.maxExclusive <= self.minExclusive) or \
-                (both(self.minExclusive, self.maxInclusive) and
-                 self.maxInclusive <= self.minExclusive):
-            raise ValueError('')
+        # minimum and maximum are equivalent to minInclusive and maxInclusive.
+        for minInclusive, maxInclusive in itertools.product(
+                [self.minInclusive, self.minimum], [self.maxInclusive, self.maximum]):
+            if both(minInclusive, self.minExclusive) or both(maxInclusive, self.maxExclusive):
+                raise ValueError(
+                    'Applications MUST raise an error if both minInclusive and minExclusive are '
+                    'specified, or if both maxInclusive and maxExclusive are specified.')
+
+            try:
+                if (both(minInclusive, self.maxExclusive) and
+                    self.maxExclusive <= minInclusive) or \
+                        (both(minInclusive, maxInclusive) and maxInclusive < minInclusive):
+                    raise ValueError('')
+
+                if (both(self.minExclusive, self.maxExclusive) and
+                    self.maxExclusive <= self.minExclusive) or \
+                        (both(self.minExclusive, maxInclusive) and
+                         maxInclusive <= self.minExclusive):
+                    raise ValueError('')
+            except (TypeError, decimal.InvalidOperation):
+                raise ValueError('bounds which cannot be compared')
 
         if 'id' in self.at_props and any(
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
-- 
2.43.0


From 3481d7c6ecc3d0b7f0ff4190b6ce634f152f8f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 025/147] fix: format specifications of the wrong type are
 ignored with a warning

---
 src/csvw/metadata.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index cfd4297..fbeeeb9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -554,7 +554,24 @@ class Datatype(DescriptionBase):
 
         raise ValueError(v)
 
+    def _valid_format(self):
+        fmt = self.format
+        if isinstance(fmt, dict):
+            keys = {'pattern'}
+            if isinstance(self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+                keys = {'pattern', 'decimalChar', 'groupChar'}
+            elif not isinstance(self.basetype(), DATATYPES['datetime']):
+                keys = set()
+            fmt = {
+                k: v for k, v in fmt.items() if k in keys and (v is None or isinstance(v, str))}
+        elif fmt is not None and not isinstance(fmt, str):
+            fmt = None
+        if fmt != self.format:
+            warnings.warn('Invalid format spec: {}'.format(self.format))
+        return fmt or None
+
     def __attrs_post_init__(self):
+        self.format = self._valid_format()
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
-- 
2.43.0


From 0025024aea9033ee726b92212b65d925c7cc9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 026/147] fix: invalid regular expressions as duration formats
 are ignored with a warning

---
 src/csvw/datatypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ff3fd59..5686dab 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -501,6 +501,11 @@ class duration(anyAtomicType):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
+        try:
+            re.compile(datatype.format or '')
+        except re.error:
+            warnings.warn('Invalid regex pattern as datatype format')
+            return {}
         return {'format': datatype.format}
 
     @staticmethod
-- 
2.43.0


From d5737881232891bc70184bac33e5442bec39f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 027/147] fix: datatype descriptions with null as base or with
 non-numeric lengths do not crash

---
 src/csvw/metadata.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fbeeeb9..6124775 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -500,10 +500,16 @@ class DescriptionBase:
 
 
 def optional_int():
+    def converter_int(v):
+        try:
+            return v if v is None else int(v)
+        except TypeError:
+            raise ValueError('Invalid value for numeric property: {}'.format(v))
+
     return attr.ib(
         default=None,
         validator=attr.validators.optional(attr.validators.instance_of(int)),
-        converter=lambda v: v if v is None else int(v))
+        converter=converter_int)
 
 
 @attr.s
@@ -546,8 +552,10 @@ class Datatype(DescriptionBase):
             return cls(base=v)
 
         if isinstance(v, dict):
-            v.setdefault('base', 'string')
-            return cls(**cls.partition_properties(v))
+            v = cls.partition_properties(v)
+            if v.get('base') is None:
+                v['base'] = 'string'
+            return cls(**v)
 
         if isinstance(v, cls):
             return v
-- 
2.43.0


From 71f9632f0a6f3116093a63b3764e439c05a1c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 028/147] fix: JSON schemas which are no object are ignored
 with a warning

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 5686dab..60c24a2 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1082,7 +1082,7 @@ class json(string):
                     return {'schema': schema}
                 except jsonschema.ValidationError:
                     return {'schema': schema}
-                except jsonschema.SchemaError:
+                except (jsonschema.SchemaError, TypeError):  # Invalid, or no object at all.
                     warnings.warn('Invalid JSON schema as datatype format')
             except _json.JSONDecodeError:
                 pass
-- 
2.43.0


From 9da9fbed71b05f532376707ed9ea69c44144f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 029/147] fix: values too big for their Python type are invalid
 (ValueError)

---
 src/csvw/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6124775..41c51cb 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -689,7 +689,10 @@ class Datatype(DescriptionBase):
     def parse(self, v):
         if v is None:
             return v
-        return self.basetype.to_python(v, **self.derived_description)
+        try:
+            return self.basetype.to_python(v, **self.derived_description)
+        except OverflowError:
+            raise ValueError('value too big for {}: {}'.format(self.base, v))
 
     def validate(self, v):
         try:
-- 
2.43.0


From b2997f94f8c25964dc91a15c415eecf1aba4f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 030/147] fix: string formats with inline flags are honoured

---
 src/csvw/datatypes.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 60c24a2..10e080b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -95,17 +95,16 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `\Z` to
-            # make sure the whole string is matched when validating.
+            # Note: When validating, the whole string must match.
             try:
-                return {'regex': re.compile(r'({})\Z'.format(datatype.format))}
+                return {'regex': re.compile(datatype.format)}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
 
     @staticmethod
     def to_python(v, regex=None):
-        if regex and not regex.match(v):
+        if regex and not regex.fullmatch(v):
             string.value_error(v)
         return v
 
-- 
2.43.0


From 84f1a0d4b1c9f93e6283c5514d466697c69e139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 031/147] fix: default and lang are inherited from schema,
 table and table group

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 41c51cb..b57cb54 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -791,7 +791,9 @@ class Description(DescriptionBase):
 
     def inherit(self, attr):
         v = getattr(self, attr)
-        if v is None and self._parent:
+        # Some inherited properties have default values other than None.
+        unset = v is None or {'default': '', 'lang': 'und'}.get(attr) == v
+        if unset and self._parent:
             return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \
                 else getattr(self._parent, attr)
         return v
@@ -1427,7 +1429,7 @@ class Table(TableLike):
                             if (not col.name) and not res:
                                 warnings.warn('Incompatible table models')
                             if isinstance(res, str) and res.split('-')[0] not in [
-                                    'und', (self.lang or 'und').split('-')[0]]:
+                                    'und', (self.inherit('lang') or 'und').split('-')[0]]:
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
                     return
-- 
2.43.0


From a8664e12bffe84e42f1b87bb6c4c6684c4c2d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 032/147] fix: required is inherited from schema, table and
 table group when reading rows

---
 src/csvw/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b57cb54..5f37994 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1395,8 +1395,8 @@ class Table(TableLike):
                     virtualcols.append((col.header, col.valueUrl))
             else:
                 colnames.append(col.header)
-            if col.required:
-                requiredcols.add(col.header)
+                if col.inherit('required'):
+                    requiredcols.add(col.header)
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
@@ -1462,7 +1462,7 @@ class Table(TableLike):
                 raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
 
             for lineno, row in reader:
-                required = {h: j for j, h, c in header_cols if c and c.required}
+                required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
                 if (not header_cols) and row:
-- 
2.43.0


From 13eff43c2f1109be381d127a36a4a573e9a16278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:55 +0000
Subject: [PATCH 033/147] fix: data from zip files and URLs is decoded just
 like data from files

---
 src/csvw/metadata.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5f37994..b6e8584 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -31,6 +31,7 @@ import uritemplate
 from . import utils
 from .datatypes import DATATYPES
 from .dsv import Dialect as BaseDialect, UnicodeReaderWithLineNumber, UnicodeWriter
+from .dsv import normalize_encoding
 from .frictionless import DataPackage
 from . import jsonld
 
@@ -1234,6 +1235,15 @@ class TableLike(Description):
         return res
 
 
+def _text_handle(fp, dialect) -> io.TextIOWrapper:
+    """
+    Decode data in the same way as `UnicodeReader` does when passed the path of a local file.
+    """
+    encoding = normalize_encoding(dialect.python_encoding)
+    return io.TextIOWrapper(
+        fp, encoding='utf-8-sig' if encoding == 'utf-8' else encoding, newline='')
+
+
 @attr.s
 class Table(TableLike):
     """
@@ -1400,8 +1410,7 @@ class Table(TableLike):
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
-                handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+                handle = _text_handle(io.BytesIO(requests.get(str(fname)).content), dialect)
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
@@ -1409,9 +1418,10 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = io.TextIOWrapper(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
-                            encoding=dialect.encoding)
+                        names = [n for n in zipf.namelist() if n.endswith(fpath.name)]
+                        # Prefer exact matches of the file name over matches of its ending.
+                        names = [n for n in names if n.split('/')[-1] == fpath.name] or names
+                        handle = _text_handle(zipf.open(names[0]), dialect)
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From 34b1ea791beeb660e7057a5a3712b15665699f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 034/147] fix: rows lacking required values only cause a
 warning in non-strict mode

---
 src/csvw/metadata.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b6e8584..3ef8585 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1506,11 +1506,13 @@ class Table(TableLike):
 
                 for k, j in required.items():
                     if k not in res:
-                        log_or_raise(
-                            '{0}:{1}:{2} {3}: {4}'.format(
-                                fname, lineno, j + 1, k, 'required column value is missing'),
-                            log=log)
-                        error = True
+                        msg = '{0}:{1}:{2} {3}: {4}'.format(
+                            fname, lineno, j + 1, k, 'required column value is missing')
+                        if not strict:
+                            warnings.warn(msg)
+                        else:
+                            log_or_raise(msg, log=log)
+                            error = True
 
                 # Augment result with regular columns not provided in the data:
                 for key in colnames:
-- 
2.43.0


From 87a83a931f298ba467339734937dbaae8d70b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 035/147] fix: list-valued primary keys and referenced columns
 do not crash integrity checks

---
 src/csvw/metadata.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3ef8585..e4f12b3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1235,6 +1235,17 @@ class TableLike(Description):
         return res
 
 
+def _hashable(v):
+    """
+    Key values may be lists (for list-valued columns) or arbitrary JSON.
+    """
+    if isinstance(v, (list, tuple)):
+        return tuple(_hashable(vv) for vv in v)
+    if isinstance(v, dict):
+        return frozenset((k, _hashable(vv)) for k, vv in v.items())
+    return v
+
+
 def _text_handle(fp, dialect) -> io.TextIOWrapper:
     """
     Decode data in the same way as `UnicodeReader` does when passed the path of a local file.
@@ -1356,13 +1367,13 @@ class Table(TableLike):
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
                 pk = get_pk(row)
-                if pk in seen:
+                if _hashable(pk) in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
                         log=log)
                     success = False
                 else:
-                    seen.add(pk)
+                    seen.add(_hashable(pk))
         return success
 
     def __iter__(self):
@@ -1671,11 +1682,11 @@ class TableGroup(TableLike):
             get_seen = [(operator.itemgetter(*key), set()) for key, _ in t_fkeys]
             for row in table.iterdicts(log=log):
                 for get, seen in get_seen:
-                    if get(row) in seen:
+                    if _hashable(get(row)) in seen:
                         # column references for a foreign key are not unique!
                         if strict:
                             success = False
-                    seen.add(get(row))
+                    seen.add(_hashable(get(row)))
             for (key, children), (_, seen) in zip(t_fkeys, get_seen):
                 single_column = (len(key) == 1)
                 for child, ref in children:
@@ -1695,7 +1706,7 @@ class TableGroup(TableLike):
                             if not single_column and None in colref:  # pragma: no cover
                                 # TODO: raise if any(c is not None for c in colref)?
                                 continue
-                            elif colref not in seen:
+                            elif _hashable(colref) not in seen:
                                 log_or_raise(
                                     '{0}:{1} Key `{2}` not found in table {3}'.format(
                                         fname,
-- 
2.43.0


From 26d4827049f5ef04dfe997ffb98d16c8485366ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 036/147] fix: foreign keys referencing unknown tables or
 columns are reported, not raised as KeyError

---
 src/csvw/metadata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e4f12b3..9e7b07a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1668,7 +1668,15 @@ class TableGroup(TableLike):
         except ValueError as e:
             success = False
             log_or_raise(str(e), log=log, level='error')
-        fkeys = self.foreign_keys()
+        try:
+            fkeys = self.foreign_keys()
+        except KeyError:  # An unknown table is referenced, see above.
+            return False
+        # Keys with unknown columns - see above - cannot be checked.
+        fkeys = [
+            (st, sc, tt, tc) for st, sc, tt, tc in fkeys
+            if all(st.tableSchema.get_column(c) for c in sc)
+            and all(tt.tableSchema.get_column(c) for c in tc)]
         # FIXME: We only support Foreign Key references between tables!
         fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))
         # Grouping by local_name of tables - even though we'd like to have the table objects
-- 
2.43.0


From ab95736dac23e9b4945b430479dc02bd18e9d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 037/147] fix: HTTP errors when retrieving data are raised
 instead of reading the error page as data

---
 src/csvw/metadata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9e7b07a..a87f613 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1421,7 +1421,9 @@ class Table(TableLike):
 
         with contextlib.ExitStack() as stack:
             if is_url(fname):
-                handle = _text_handle(io.BytesIO(requests.get(str(fname)).content), dialect)
+                res = requests.get(str(fname))
+                res.raise_for_status()
+                handle = _text_handle(io.BytesIO(res.content), dialect)
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
-- 
2.43.0


From 41b9280ab72e71e4271d1413acc417735d2ec60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 038/147] fix: iterdicts reads file-like objects, as documented

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a87f613..1ad99be 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1426,8 +1426,8 @@ class Table(TableLike):
                 handle = _text_handle(io.BytesIO(res.content), dialect)
             else:
                 handle = fname
-                fpath = pathlib.Path(fname)
-                if not fpath.exists():
+                fpath = pathlib.Path(fname) if isinstance(fname, (str, pathlib.Path)) else None
+                if fpath and not fpath.exists():
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-- 
2.43.0


From 7015f435ba516f01b43cb8e8b22442819aedf1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 039/147] fix: copying table groups with zipped data or data in
 sub-directories

---
 src/csvw/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1ad99be..8f2342f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1612,7 +1612,13 @@ class TableGroup(TableLike):
         """
         dest = pathlib.Path(dest)
         for table in self.tables:
-            shutil.copy(str(table.url.resolve(self.base)), str(table.url.resolve(dest)))
+            src, target = table.url.resolve(self.base), table.url.resolve(dest)
+            if not src.exists():  # The data may be zipped, see Table.iterdicts.
+                zipped = src.parent / (src.name + '.zip')
+                if zipped.exists():
+                    src, target = zipped, target.parent / zipped.name
+            target.parent.mkdir(parents=True, exist_ok=True)
+            shutil.copy(str(src), str(target))
         self._fname = dest / self._fname.name
         self.to_file(self._fname)
 
-- 
2.43.0


From 3e9beb97a8de263da2b9078cfb431c8dbd311106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 040/147] fix: dialects with default settings only are kept
 when serializing metadata

---
 src/csvw/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8f2342f..c795b9b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -493,11 +493,12 @@ class DescriptionBase:
     def asdict(self, omit_defaults=True) -> dict:
         # Note: The `null` property is the only inherited, list-valued property where the default
         # is not the empty list. Thus, to allow setting it to empty, we must treat `null` as
-        # special case here.
+        # special case here. Likewise, an empty dialect description overrides the dialect of the
+        # table group.
         # See also https://www.w3.org/TR/tabular-metadata/#dfn-inherited-property
         return collections.OrderedDict(
             (k, v) for k, v in self._iter_dict_items(omit_defaults)
-            if (k == 'null' or (v not in ([], {}))))
+            if (k in ('null', 'dialect') or (v not in ([], {}))))
 
 
 def optional_int():
-- 
2.43.0


From a71409782c779999d2dc9c36dcf5af0c15394675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 041/147] fix: valid properties of transformations do not cause
 warnings

---
 src/csvw/metadata.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c795b9b..f5101c5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1057,11 +1057,23 @@ def dialect_props(d):
     return partitioned
 
 
+@attr.s
+class Transformation(DescriptionBase):
+    """
+    .. seealso:: http://w3c.github.io/csvw/metadata/#transformation-definitions
+    """
+    url = attr.ib(default=None)
+    scriptFormat = attr.ib(default=None)
+    targetFormat = attr.ib(default=None)
+    source = attr.ib(default=None)
+    titles = attr.ib(default=None)
+
+
 def valid_transformations(instance, attribute, value):
     if not isinstance(value, list):
         warnings.warn('Invalid transformations property')
     for tr in value:
-        Description.partition_properties(tr, type_name='Template')
+        Transformation.partition_properties(tr, type_name='Template')
 
 
 @attr.s
-- 
2.43.0


From a4be1f0f0d94004e3ce0812233a5afde455521f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 042/147] fix: @base in the @context of a table group applies
 to its tables

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f5101c5..fed2cf0 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1195,7 +1195,7 @@ class TableLike(Description):
         """
         at_props = self._parent.at_props if self._parent else self.at_props
         ctxbase = None
-        for obj in self.at_props.get('context', []):
+        for obj in at_props.get('context') or []:
             if isinstance(obj, dict) and '@base' in obj:
                 ctxbase = obj['@base']
         if 'base' in at_props:
-- 
2.43.0


From f230e3666656bb68c4e314c9a9046f15b4e8aa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 043/147] fix: arrays as values of atomic properties are
 invalid

---
 src/csvw/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..1523cfb 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -17,8 +17,10 @@ def is_url(s):
 
 
 def converter(type_, default, s, allow_none=False, cond=None, allow_list=True):
-    if allow_list and type_ != list and isinstance(s, list):
-        return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]
+    if allow_list and type_ == dict and isinstance(s, list):
+        return [
+            v for v in [converter(type_, None, ss, cond=cond, allow_list=False) for ss in s]
+            if v is not None]
 
     if allow_none and s is None:
         return s
-- 
2.43.0


From 81ccd3fc921fc53f8f562cc9ede03b0a82cc6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 044/147] fix: tables property which is no array raises
 ValueError

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fed2cf0..eaf2b6f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1558,6 +1558,8 @@ class Table(TableLike):
 
 def converter_tables(v):
     res = []
+    if not isinstance(v, (list, tuple)):
+        raise ValueError('Invalid value for tables property')
     for vv in v:
         if not isinstance(vv, (dict, Table)):
             warnings.warn('Invalid value for Table spec')
-- 
2.43.0


From 24f36f5201af5c1a9d7130645707934691cec2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 045/147] fix: invalid foreign keys and column references cause
 warnings or ValueError only

---
 src/csvw/metadata.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index eaf2b6f..b63f549 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -913,10 +913,17 @@ class Column(Description):
 
 
 def column_reference():
+    def converter_column_reference(v):
+        res = v if isinstance(v, list) or v is None else [v]
+        if res is not None and not (res and all(isinstance(vv, str) for vv in res)):
+            warnings.warn('Invalid column reference: {}'.format(v))
+            return None
+        return res
+
     return attr.ib(
         default=None,
         validator=attr.validators.optional(attr.validators.instance_of(list)),
-        converter=lambda v: v if isinstance(v, list) or v is None else [v])
+        converter=converter_column_reference)
 
 
 @attr.s
@@ -929,6 +936,8 @@ class Reference:
     def __attrs_post_init__(self):
         if self.resource is not None and self.schemaReference is not None:
             raise ValueError(self)
+        if self.columnReference is None:
+            raise ValueError('Invalid reference property')
 
 
 @attr.s
@@ -942,12 +951,15 @@ class ForeignKey:
         if isinstance(d, dict):
             try:
                 _ = Reference(**d['reference'])
-            except TypeError:
+            except (TypeError, KeyError):
                 raise ValueError('Invalid reference property')
             if not set(d.keys()).issubset({'columnReference', 'reference'}):
                 raise ValueError('Invalid foreignKey spec')
         kw = dict(d, reference=Reference(**d['reference']))
-        return cls(**kw)
+        res = cls(**kw)
+        if res.columnReference is None:
+            raise ValueError('Invalid foreignKey spec')
+        return res
 
     def asdict(self, **kw):
         res = utils.attr_asdict(self, **kw)
@@ -957,7 +969,7 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
-    for d in functools.partial(utils.converter, dict, None)(v):
+    for d in functools.partial(utils.converter, dict, None)(v) or []:
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
-- 
2.43.0


From ccc7b26f7418884a88374cf0d4fea3d70bd542ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 046/147] fix: unknown properties of dialects cause warnings

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b63f549..e9eecda 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1064,6 +1064,9 @@ def dialect_props(d):
     partitioned = Description.partition_properties(d, type_name='Dialect', strict=False)
     del partitioned['at_props']
     del partitioned['common_props']
+    for k in [k for k in partitioned if k not in attr.fields_dict(Dialect)]:
+        warnings.warn('Invalid property {} for Dialect'.format(k))
+        del partitioned[k]
     if partitioned.get('headerRowCount'):
         partitioned['header'] = True
     return partitioned
-- 
2.43.0


From c544e5b7760260c280fe292726990698840ae24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 047/147] fix: transformations property which is no array of
 objects only causes warnings

---
 src/csvw/metadata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e9eecda..9c66f58 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1087,6 +1087,7 @@ class Transformation(DescriptionBase):
 def valid_transformations(instance, attribute, value):
     if not isinstance(value, list):
         warnings.warn('Invalid transformations property')
+        return
     for tr in value:
         Transformation.partition_properties(tr, type_name='Template')
 
-- 
2.43.0


From 20dbbcfa2d9d087c827701cac43a4648692bb905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 048/147] fix: foreign key references without referenced
 resource or schema are invalid

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9c66f58..07f7f4d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -936,7 +936,7 @@ class Reference:
     def __attrs_post_init__(self):
         if self.resource is not None and self.schemaReference is not None:
             raise ValueError(self)
-        if self.columnReference is None:
+        if self.columnReference is None or (self.resource is None and self.schemaReference is None):
             raise ValueError('Invalid reference property')
 
 
-- 
2.43.0


From de92358fe292c9ce6d1010b256bd3dde8d33c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 049/147] fix: URI templates which are no strings are treated
 as empty string, as specified

---
 src/csvw/metadata.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 07f7f4d..ad8ce03 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -177,13 +177,6 @@ virtual""".split()
 is_url = utils.is_url
 
 
-class Invalid:
-    pass
-
-
-INVALID = Invalid()
-
-
 @attr.s
 class Dialect(BaseDialect):
     """
@@ -268,12 +261,12 @@ def uri_template_property():
             return None
         if not isinstance(v, str):
             warnings.warn('Invalid value for aboutUrl property')
-            return INVALID
+            return URITemplate('')
         return URITemplate(v)
 
     return attr.ib(
         default=None,
-        validator=attr.validators.optional(attr.validators.instance_of((URITemplate, Invalid))),
+        validator=attr.validators.optional(attr.validators.instance_of(URITemplate)),
         converter=converter_uriTemplate)
 
 
@@ -1239,9 +1232,6 @@ class TableLike(Description):
             'https://raw.githubusercontent.com/path?1#2'
 
         """
-        if tmpl is INVALID:
-            return self.url.resolve(self.base)
-
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
-- 
2.43.0


From 752123bf4db8466cb5bd66a76113f5cd7b92af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 050/147] fix: lineTerminators may be given as string, but not
 as array of something else

---
 src/csvw/dsv_dialects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index e35f391..b29644a 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -55,7 +55,11 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, list, ['\r\n', '\n']),
+        converter=functools.partial(
+            utils.converter,
+            (list, str),
+            ['\r\n', '\n'],
+            cond=lambda v: v and all(vv and isinstance(vv, str) for vv in v)),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
-- 
2.43.0


From d9bea0e34d99a394237e39e05dce97e0d6673d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 051/147] fix: empty lists of titles do not crash

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ad8ce03..9fcacdd 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -360,10 +360,10 @@ class NaturalLanguage(collections.OrderedDict):
         self[lang].append(string)
 
     def __str__(self):
-        return self.getfirst() or next(iter(self.values()))[0]
+        return self.getfirst() or next((v[0] for v in self.values() if v), '')
 
     def getfirst(self, lang=None):
-        return self.get(lang, [None])[0]
+        return (self.get(lang) or [None])[0]
 
 
 def valid_id_property(v):
-- 
2.43.0


From fe854e310688d54f86415a502041da8b74273df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 052/147] fix: an invalid @context does not crash the
 computation of the base URL

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9fcacdd..7ffdb7b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1204,7 +1204,8 @@ class TableLike(Description):
         """
         at_props = self._parent.at_props if self._parent else self.at_props
         ctxbase = None
-        for obj in at_props.get('context') or []:
+        ctx = at_props.get('context')
+        for obj in ctx if isinstance(ctx, list) else []:
             if isinstance(obj, dict) and '@base' in obj:
                 ctxbase = obj['@base']
         if 'base' in at_props:
-- 
2.43.0


From ddd27689023a67db4ed220d38b16d95875726b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 053/147] fix: primary keys with unknown columns are reported,
 not raised as KeyError

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7ffdb7b..5fb93ae 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1386,7 +1386,11 @@ class Table(TableLike):
             seen = set()
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
-                pk = get_pk(row)
+                try:
+                    pk = get_pk(row)
+                except KeyError as e:
+                    log_or_raise('{0} missing primary key column: {1}'.format(fname, e), log=log)
+                    return False
                 if _hashable(pk) in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
-- 
2.43.0


From 1ad84df7969f13a3d6a6de1fb094d2923f4f218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:16 +0000
Subject: [PATCH 054/147] fix: schemas referenced from local metadata files are
 read, missing ones raise ValueError

---
 src/csvw/metadata.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5fb93ae..be26842 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1024,10 +1024,10 @@ class Schema(Description):
     def fromvalue(cls, v):
         if isinstance(v, str):
             try:
-                # The schema is referenced with a URL
-                v = requests.get(v).json()
-            except:  # pragma: no cover # noqa: E722
-                return v
+                # The schema is referenced with a URL or - if resolved already - with a path.
+                v = get_json(v)
+            except (OSError, ValueError) as e:
+                raise ValueError('Invalid schema reference {}: {}'.format(v, e))
         if not isinstance(v, dict):
             if isinstance(v, int):
                 warnings.warn('Invalid value for tableSchema property')
@@ -1085,6 +1085,19 @@ def valid_transformations(instance, attribute, value):
         Transformation.partition_properties(tr, type_name='Template')
 
 
+def resolve_schema_references(data: dict, base: typing.Union[str, pathlib.Path]) -> dict:
+    def resolved(d):
+        if isinstance(d, dict) and isinstance(d.get('tableSchema'), str):
+            d = collections.OrderedDict(d)
+            d['tableSchema'] = str(Link(d['tableSchema']).resolve(base))
+        return d
+
+    res = resolved(data)
+    if isinstance(res.get('tables'), list):
+        res = collections.OrderedDict(res, tables=[resolved(t) for t in res['tables']])
+    return res
+
+
 @attr.s
 class TableLike(Description):
     """
@@ -1165,7 +1178,10 @@ class TableLike(Description):
         """
         if is_url(str(fname)):
             return cls.from_url(str(fname), data=data)
-        res = cls.fromvalue(data or get_json(fname))
+        data = data or get_json(fname)
+        if isinstance(data, dict) and isinstance(data.get('tables', []), list):
+            data = resolve_schema_references(data, pathlib.Path(fname).parent)
+        res = cls.fromvalue(data)
         res._fname = pathlib.Path(fname)
         return res
 
@@ -1177,10 +1193,7 @@ class TableLike(Description):
         data = data or get_json(url)
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
-        for table in data.get('tables', [data]):
-            if isinstance(table, dict) and isinstance(table.get('tableSchema'), str):
-                table['tableSchema'] = Link(table['tableSchema']).resolve(data['@base'])
-        res = cls.fromvalue(data)
+        res = cls.fromvalue(resolve_schema_references(data, data['@base']))
         return res
 
     def to_file(self, fname: typing.Union[str, pathlib.Path], omit_defaults=True) -> pathlib.Path:
-- 
2.43.0


From 410eda2c3a8af7bc8b24b5e84c5a6445e530fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:41 +0000
Subject: [PATCH 055/147] fix: suppressOutput must be a boolean, rowTitles
 column references

---
 src/csvw/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index be26842..60cf55b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -992,7 +992,10 @@ class Schema(Description):
     primaryKey = column_reference()
     rowTitles = attr.ib(
         default=attr.Factory(list),
-        converter=lambda v: v if isinstance(v, list) else [v],
+        converter=lambda v: [
+            vv for vv in (utils.converter(
+                str, None, vv, allow_list=False) for vv in (v if isinstance(v, list) else [v]))
+            if vv is not None],
     )
 
     def __attrs_post_init__(self):
@@ -1303,7 +1306,9 @@ class Table(TableLike):
 
     .. seealso:: `<https://www.w3.org/TR/tabular-metadata/#tables>`_
     """
-    suppressOutput = attr.ib(default=False)
+    suppressOutput = attr.ib(
+        default=False,
+        converter=functools.partial(utils.converter, bool, False))
     _comments = []
 
     def add_foreign_key(self, colref, ref_resource, ref_colref):
-- 
2.43.0


From 2b6e250166199fd93b1df910f473e4e8992cfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:26 +0000
Subject: [PATCH 056/147] fix: an invalid trim value is ignored with a warning
 like other invalid values

---
 src/csvw/dsv_dialects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index b29644a..15fdf09 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -117,7 +117,9 @@ class Dialect(object):
         validator=attr.validators.in_(['true', 'false', 'start', 'end']),
         converter=lambda v: functools.partial(
             utils.converter,
-            (str, bool), 'false')('{0}'.format(v).lower() if isinstance(v, bool) else v))
+            (str, bool),
+            'false',
+            cond=lambda s: s in ['true', 'false', 'start', 'end'])('{0}'.format(v).lower() if isinstance(v, bool) else v))
 
     def updated(self, **kw):
         res = self.__class__(**attr.asdict(self))
-- 
2.43.0


From bed9363cc4e98af1a85bcb4ed4c32b70dd50c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 057/147] fix: URI templates which are QNames are expanded, and
 compacted at the start only

---
 src/csvw/metadata.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 60cf55b..2b02368 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1249,24 +1249,21 @@ class TableLike(Description):
             'https://raw.githubusercontent.com/path?1#2'
 
         """
+        expanded = tmpl.expand(
+            dict({_k: _v for _k, _v in row.items() if isinstance(_k, str)}, _row=_row, _name=_name))
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
                 # from turning it into a local path.
-                res = '{}{}'.format(url, tmpl.uri.split(':')[1])
+                res = '{}{}'.format(url, expanded[len(prefix) + 1:])
                 break
         else:
-            res = Link(
-                tmpl.expand(
-                    _row=_row,
-                    _name=_name,
-                    **{_k: _v for _k, _v in row.items() if isinstance(_k, str)}
-                )).resolve(self.url.resolve(self.base) if self.url else self.base)
+            res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
         if not isinstance(res, pathlib.Path):
             if qname:
                 for prefix, url in NAMESPACES.items():
                     if res.startswith(url):
-                        res = res.replace(url, prefix + ':')
+                        res = prefix + ':' + res[len(url):]
                         break
         return res
 
@@ -1575,7 +1572,7 @@ class Table(TableLike):
 
                 # Augment result with virtual columns:
                 for key, valueUrl in virtualcols:
-                    res[key] = valueUrl.expand(**res)
+                    res[key] = valueUrl.expand(res)
 
                 if not error:
                     if with_metadata:
-- 
2.43.0


From 24102ce9fc8216a215e520e15bc04826a8ca1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 058/147] fix: URI templates are expanded with the canonical
 representation of typed values

---
 src/csvw/metadata.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2b02368..6a0130d 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1037,6 +1037,23 @@ class Schema(Description):
             v = {}
         return cls(**cls.partition_properties(v))
 
+    def template_variables(self, row: dict) -> dict:
+        """
+        The variables available in URI templates, i.e. the canonical (string) representations of
+        the typed values in a row.
+        """
+        def canonical(v, datatype):
+            if v is None or isinstance(v, str):
+                return v
+            if isinstance(v, (list, tuple)):
+                return [canonical(vv, datatype) for vv in v if vv is not None]
+            return Datatype(base=datatype.base).formatted(v) if datatype else str(v)
+
+        cols = self.columndict
+        return {
+            k: canonical(v, cols[k].inherit('datatype') if k in cols else None)
+            for k, v in row.items() if isinstance(k, str)}
+
     @property
     def columndict(self):
         return {c.header: c for c in self.columns}
@@ -1250,7 +1267,7 @@ class TableLike(Description):
 
         """
         expanded = tmpl.expand(
-            dict({_k: _v for _k, _v in row.items() if isinstance(_k, str)}, _row=_row, _name=_name))
+            dict(self.tableSchema.template_variables(row), _row=_row, _name=_name))
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
@@ -1572,7 +1589,7 @@ class Table(TableLike):
 
                 # Augment result with virtual columns:
                 for key, valueUrl in virtualcols:
-                    res[key] = valueUrl.expand(res)
+                    res[key] = valueUrl.expand(self.tableSchema.template_variables(res))
 
                 if not error:
                     if with_metadata:
-- 
2.43.0


From f9393cd1f905960a1f0392c7fd55bd65bd48d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 059/147] fix: URI values are variables of URI templates as
 strings, not lists

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6a0130d..94febf4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1045,7 +1045,7 @@ class Schema(Description):
         def canonical(v, datatype):
             if v is None or isinstance(v, str):
                 return v
-            if isinstance(v, (list, tuple)):
+            if isinstance(v, list):
                 return [canonical(vv, datatype) for vv in v if vv is not None]
             return Datatype(base=datatype.base).formatted(v) if datatype else str(v)
 
-- 
2.43.0


From cad91da7626dd56ff3daa6d9584327bf6fda9c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 060/147] fix: metadata2markdown does not crash for groups
 without dialect, with schema references, structured formats or descriptions

---
 src/csvw/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 1523cfb..e1a11b0 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -155,11 +155,10 @@ def metadata2markdown(tg, link_files=False) -> str:
     def properties(props):
         props = {k: v for k, v in copy.deepcopy(props).items() if v}
         res = []
-        desc = props.pop('dc:description', None)
-        if desc:
-            res.append(desc + '\n')
-        img = props.pop('https://schema.org/image', None)
-        if img:
+        if isinstance(props.get('dc:description'), str):
+            res.append(props.pop('dc:description') + '\n')
+        if isinstance(props.get('https://schema.org/image'), (str, dict)):
+            img = props.pop('https://schema.org/image')
             if isinstance(img, str):  # pragma: no cover
                 img = {'contentUrl': img}
             res.append('![{}]({})\n'.format(
@@ -174,7 +173,7 @@ def metadata2markdown(tg, link_files=False) -> str:
     def colrow(col, fks, pk):
         dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
         if col.datatype:
-            if col.datatype.format:
+            if isinstance(col.datatype.format, str):
                 if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
                     dt += '<br>Valid choices:<br>'
                     dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
@@ -186,7 +185,7 @@ def metadata2markdown(tg, link_files=False) -> str:
                 dt += '<br>&le; {}'.format(col.datatype.maximum)
         if col.separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-        desc = col.common_props.get('dc:description', '').replace('\n', ' ')
+        desc = htmlify(col.common_props.get('dc:description') or '').replace('\n', ' ')
 
         if pk and col.name in pk:
             desc = (desc + '<br>') if desc else desc
@@ -213,7 +212,8 @@ def metadata2markdown(tg, link_files=False) -> str:
     for table in tg.tables:
         fks = {
             fk.columnReference[0]: (fk.reference.columnReference[0], fk.reference.resource.string)
-            for fk in table.tableSchema.foreignKeys if len(fk.columnReference) == 1}
+            for fk in table.tableSchema.foreignKeys
+            if len(fk.columnReference) == 1 and fk.reference.resource}
         header = '## <a name="table-{}"></a>Table '.format(slug(table.url.string))
         if link_files and tg._fname and tg._fname.parent.joinpath(table.url.string).exists():
             header += '[{0}]({0})\n'.format(table.url.string)
@@ -222,7 +222,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         res.append('\n' + header + '\n')
         res.append(properties(table.common_props))
         dialect = table.inherit('dialect')
-        if dialect.asdict():
+        if dialect and dialect.asdict():
             res.append('\n**CSV dialect**: `{}`\n'.format(json.dumps(dialect.asdict())))
         res.append('\n### Columns\n')
         res.append('Name/Property | Datatype | Description')
-- 
2.43.0


From 90375ad398c0fdc9374902c8f286a9b2e8f3bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 061/147] fix: metadata2markdown renders bounds which are 0

---
 src/csvw/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index e1a11b0..002a4d7 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -179,9 +179,9 @@ def metadata2markdown(tg, link_files=False) -> str:
                     dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
                 elif col.datatype.base == 'string':
                     dt += '<br>Regex: `{}`'.format(col.datatype.format)
-            if col.datatype.minimum:
+            if col.datatype.minimum is not None:
                 dt += '<br>&ge; {}'.format(col.datatype.minimum)
-            if col.datatype.maximum:
+            if col.datatype.maximum is not None:
                 dt += '<br>&le; {}'.format(col.datatype.maximum)
         if col.separator:
             dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-- 
2.43.0


From b9c70acadf33b876c18188808c0d194aa759c23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 062/147] fix: metadata2markdown renders images given as URL

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 002a4d7..ce3e433 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -160,7 +160,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         if isinstance(props.get('https://schema.org/image'), (str, dict)):
             img = props.pop('https://schema.org/image')
             if isinstance(img, str):  # pragma: no cover
-                img = {'contentUrl': img}
+                img = {'https://schema.org/contentUrl': img}
             res.append('![{}]({})\n'.format(
                 img.get('https://schema.org/caption') or '',
                 img.get('https://schema.org/contentUrl')))
-- 
2.43.0


From 0edcbf3709f2bcce53b8adf661f2bd34a9178002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 063/147] fix: metadata2markdown describes columns with their
 effective properties

---
 src/csvw/utils.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index ce3e433..43d1400 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -171,20 +171,22 @@ def metadata2markdown(tg, link_files=False) -> str:
         return '\n'.join(res) + '\n'
 
     def colrow(col, fks, pk):
-        dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
-        if col.datatype:
-            if isinstance(col.datatype.format, str):
-                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
+        datatype, separator = col.inherit('datatype'), col.inherit('separator')
+        propertyUrl = col.inherit('propertyUrl')
+        dt = '`{}`'.format(datatype.base if datatype else 'string')
+        if datatype:
+            if isinstance(datatype.format, str):
+                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', datatype.format):
                     dt += '<br>Valid choices:<br>'
-                    dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
-                elif col.datatype.base == 'string':
-                    dt += '<br>Regex: `{}`'.format(col.datatype.format)
-            if col.datatype.minimum is not None:
-                dt += '<br>&ge; {}'.format(col.datatype.minimum)
-            if col.datatype.maximum is not None:
-                dt += '<br>&le; {}'.format(col.datatype.maximum)
-        if col.separator:
-            dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
+                    dt += ''.join(' `{}`'.format(w) for w in datatype.format.split('|'))
+                elif datatype.base == 'string':
+                    dt += '<br>Regex: `{}`'.format(datatype.format)
+            if datatype.minimum is not None:
+                dt += '<br>&ge; {}'.format(datatype.minimum)
+            if datatype.maximum is not None:
+                dt += '<br>&le; {}'.format(datatype.maximum)
+        if separator:
+            dt = 'list of {} (separated by `{}`)'.format(dt, separator)
         desc = htmlify(col.common_props.get('dc:description') or '').replace('\n', ' ')
 
         if pk and col.name in pk:
@@ -197,8 +199,8 @@ def metadata2markdown(tg, link_files=False) -> str:
                 fks[col.name][1], fks[col.name][0], slug(fks[col.name][1]))
 
         return ' | '.join([
-            '[{}]({})'.format(col.name, col.propertyUrl)
-            if col.propertyUrl else '`{}`'.format(col.name),
+            '[{}]({})'.format(col.header, propertyUrl)
+            if propertyUrl else '`{}`'.format(col.header),
             dt,
             desc,
         ])
-- 
2.43.0


From 12fe478a690ace142f796cf59bc4c3530af9f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 064/147] fix: metadata2markdown keeps the cells of the tables
 it renders separate

---
 src/csvw/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 43d1400..cecde1a 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -152,6 +152,9 @@ def metadata2markdown(tg, link_files=False) -> str:
             return '<dl>{}</dl>'.format(''.join(items))
         return str(obj)
 
+    def cell(s):
+        return re.sub(r'\s*[\r\n]+\s*', ' ', s).replace('|', '\\|')
+
     def properties(props):
         props = {k: v for k, v in copy.deepcopy(props).items() if v}
         res = []
@@ -167,7 +170,7 @@ def metadata2markdown(tg, link_files=False) -> str:
         if props:
             res.append('property | value\n --- | ---')
             for k, v in props.items():
-                res.append('{} | {}'.format(qname2link(k), htmlify(v, key=k)))
+                res.append('{} | {}'.format(qname2link(k), cell(htmlify(v, key=k))))
         return '\n'.join(res) + '\n'
 
     def colrow(col, fks, pk):
@@ -198,7 +201,7 @@ def metadata2markdown(tg, link_files=False) -> str:
             desc += 'References [{}::{}](#table-{})'.format(
                 fks[col.name][1], fks[col.name][0], slug(fks[col.name][1]))
 
-        return ' | '.join([
+        return ' | '.join(cell(s) for s in [
             '[{}]({})'.format(col.header, propertyUrl)
             if propertyUrl else '`{}`'.format(col.header),
             dt,
-- 
2.43.0


From 4df3155c1a81a9db5fe3559d6f0a8ed4f6533883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 065/147] fix: local CSV files without metadata are found
 whatever their path, and read like remote ones

---
 src/csvw/metadata.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 94febf4..3f30a25 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1928,11 +1928,9 @@ class CSVW:
             'url': url,
         }
         if not is_url(url or ''):
-            # No metadata detected for a local CSV file. To make table reading work, we set the
-            # directory as @base and the filename as url property of the description.
-            p = pathlib.Path(url)
-            res['@base'] = str(p)
-            res['url'] = p.name
+            # No metadata detected for a local CSV file. Thus, the filename is set as url property
+            # of the description, to be resolved against the directory.
+            res['url'] = pathlib.Path(url).name
         return res, no_header
 
     def to_json(self, minimal=False):
-- 
2.43.0


From 7c11c5278512d98c019285504073dbb6a7020854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:43 +0000
Subject: [PATCH 066/147] fix: JSON-LD values which are numbers or booleans do
 not crash the conversion to JSON

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..5f14bc0 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -118,7 +118,7 @@ def to_json(obj, flatten_list=False):
     if isinstance(obj, dict):
         if '@value' in obj:
             obj = obj['@value']
-        if len(obj) == 1 and '@id' in obj:
+        elif len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
         return {
-- 
2.43.0


From 4a9b69865f676d936c3ea9e4d7d505af148e4892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 067/147] fix: typed values are formatted in JSON also when in
 lists or when the datatype is inherited

---
 src/csvw/jsonld.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 5f14bc0..c67d249 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -21,11 +21,14 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    datatype = col.inherit('datatype') if col else None
+    if isinstance(value, list):
+        return [format_value(v, col) for v in value]
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
             stamp, _, milliseconds = res.partition('.')
@@ -33,15 +36,15 @@ def format_value(value, col):
                 else stamp.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
-- 
2.43.0


From 58ee529a340bdd4221799eae88d92ef3cec06d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 068/147] fix: timezones of times with fractional seconds are
 kept in JSON

---
 src/csvw/jsonld.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index c67d249..da67d30 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -31,9 +31,8 @@ def format_value(value, col):
         if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            res = re.sub(r'(\.[0-9]*?)0+(?![0-9])', r'\1', res)
+            return re.sub(r'\+00:00$', 'Z', res)
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
         return datatype.formatted(value)
-- 
2.43.0


From c8b91cd12383d14bc50eabbbdde985292f65438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 069/147] fix: lists of different subjects are not merged in
 JSON

---
 src/csvw/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index da67d30..edf5f25 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -141,7 +141,8 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     for triple in triples:
         if isinstance(triple.value, list):
             for t in merged:
-                if t.property == triple.property and isinstance(t.value, list):
+                if t.about == triple.about and t.property == triple.property \
+                        and isinstance(t.value, list):
                     t.value.extend(triple.value)
                     break
             else:
-- 
2.43.0


From 79cc7a3bdd194236177c0aaf3b13fce7ae535bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:57 +0000
Subject: [PATCH 070/147] fix: all objects described by a row are contained in
 minimal JSON

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3f30a25..c8290db 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1946,7 +1946,7 @@ class CSVW:
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
             return list(
-                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))
+                itertools.chain(*[r['describes'] for t in res['tables'] for r in t['row']]))
 
         return res
 
-- 
2.43.0


From 367fb994721c48575f270c23bdcf870efcdbbf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:14 +0000
Subject: [PATCH 071/147] fix: converting to JSON does not change the metadata

---
 src/csvw/jsonld.py   | 4 ++--
 src/csvw/metadata.py | 3 ---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index edf5f25..257821b 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -74,12 +74,12 @@ class Triple:
         """
         _name = col.header if col else None
 
-        propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
+        propertyUrl = (col or table).inherit('propertyUrl')
         if propertyUrl:
             prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)
 
         is_type = prop == 'rdf:type'
-        valueUrl = col.valueUrl if col else table.inherit('valueUrl')
+        valueUrl = (col or table).inherit('valueUrl')
         if valueUrl:
             val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)
         val = format_value(val, col)
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c8290db..4b2313a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1963,9 +1963,6 @@ class CSVW:
         res.update(jsonld.to_json(table.common_props))
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
-        for col in cols.values():
-            col.propertyUrl = col.inherit('propertyUrl')
-            col.valueUrl = col.inherit('valueUrl')
 
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
-- 
2.43.0


From d7acf52bd695c7469d144804f4e9d832365fecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 072/147] fix: empty lists are skipped in JSON also when the
 separator is inherited

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4b2313a..29233bf 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2005,7 +2005,7 @@ class CSVW:
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
             if (null and v in null) or v == "" or (v is None) or \
-                    (col and col.separator and v == []):
+                    (col and col.inherit('separator') and v == []):
                 continue
 
             triples.append(jsonld.Triple.from_col(
-- 
2.43.0


From 7b9c1da0d2cab07695e6fbc32ee65de7e2c9d7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 073/147] fix: row titles are formatted in JSON, and are not
 dropped when 0 or false

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 29233bf..be5a2dd 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1980,7 +1980,8 @@ class CSVW:
         res['rownum'] = rownum
         if table.tableSchema.rowTitles:
             res['titles'] = [
-                t for t in [row.get(name) for name in table.tableSchema.rowTitles] if t]
+                jsonld.format_value(row[name], cols.get(name))
+                for name in table.tableSchema.rowTitles if row.get(name) not in (None, '', [])]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From e3657466f24375ee21203ecd9712577e447f8645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:23 +0000
Subject: [PATCH 074/147] fix: CSV files which are no UTF-8 or happen to be
 JSON are not taken for metadata

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index be5a2dd..9efd6c7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1806,9 +1806,13 @@ class CSVW:
             no_header = False
             try:
                 md = get_json(md_url or url)
+                if not md_url and not isinstance(md, dict):
+                    # A CSV file, which happens to be valid JSON, e.g. because it contains just a
+                    # number.
+                    md, no_header = self.locate_metadata(url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-- 
2.43.0


From 3da9efe18eaeafe174f01c96ae2328a6cb1e8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 075/147] fix: URI templates of local tables expand to strings,
 fragments refer to the table

---
 src/csvw/metadata.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9efd6c7..f0eee9b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1275,13 +1275,16 @@ class TableLike(Description):
                 res = '{}{}'.format(url, expanded[len(prefix) + 1:])
                 break
         else:
-            res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
-        if not isinstance(res, pathlib.Path):
-            if qname:
-                for prefix, url in NAMESPACES.items():
-                    if res.startswith(url):
-                        res = prefix + ':' + res[len(url):]
-                        break
+            base = self.url.resolve(self.base) if self.url else self.base
+            if isinstance(base, pathlib.Path) and expanded[:1] in ('', '#', '?'):
+                res = '{}{}'.format(base, expanded)
+            else:
+                res = str(Link(expanded).resolve(base))
+        if qname:
+            for prefix, url in NAMESPACES.items():
+                if res.startswith(url):
+                    res = prefix + ':' + res[len(url):]
+                    break
         return res
 
 
-- 
2.43.0


From d549909221ce43357659f14b30186443c74e1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 076/147] fix: objects which refer to themselves or each other
 are not lost in JSON

---
 src/csvw/jsonld.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 257821b..fe18550 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -107,9 +107,16 @@ def frame(data: list) -> list:
                     refid = v.get('@id')
                     if refid:
                         refs.setdefault(refid, (v, []))[1].append(item)
+    embedded = {}
     for ref, subjects in refs.values():
         if len(subjects) == 1 and ref['@id'] in items:
-            ref.update(items.pop(ref['@id']))
+            # Make sure we don't embed an object in itself.
+            root = subjects[0].get('@id')
+            while root in embedded:
+                root = embedded[root]
+            if root != ref['@id']:
+                embedded[ref['@id']] = root
+                ref.update(items.pop(ref['@id']))
     return list(items.values())
 
 
-- 
2.43.0


From 8b4036c6f1e9d328dd8bebae572ed59b83c26edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:59 +0000
Subject: [PATCH 077/147] fix: list values are kept in JSON for rows which
 describe several objects

---
 src/csvw/jsonld.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index fe18550..efa25f2 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -61,11 +61,12 @@ class Triple:
     property = attr.ib()
     value = attr.ib()
 
-    def as_rdflib_triple(self):
-        return (
-            URIRef(self.about),
-            URIRef(self.property),
-            URIRef(self.value) if is_url(self.value) else Literal(self.value))
+    def as_rdflib_triples(self):
+        for value in self.value if isinstance(self.value, list) else [self.value]:
+            yield (
+                URIRef(self.about),
+                URIRef(self.property),
+                URIRef(value) if is_url(value) else Literal(value))
 
     @classmethod
     def from_col(cls, table, col, row, prop, val, rownum):
@@ -179,11 +180,11 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
 
     g = Graph()
     for triple in triples:
-        g.add(triple.as_rdflib_triple())
+        g += triple.as_rdflib_triples()
     if '@id' in grouped:
         for prop, val in grouped.items():
             if prop != '@id':
-                g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
+                g += Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triples()
     res = g.serialize(format='json-ld')
     # Frame and simplify the resulting objects, augment with list index:
     res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
-- 
2.43.0


From fe0dff91d2bcfd4414abe04452f04445652f5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 078/147] fix: properties without subject are kept in JSON for
 rows which describe several objects

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index efa25f2..041429e 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -197,4 +197,4 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
         grouped.update(res[0])
         return [grouped]
 
-    return res
+    return [grouped] + res if grouped and '@id' not in grouped else res
-- 
2.43.0


From 0b7e20281bdc378dfbf7b1f948943aa33a9c7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:44 +0000
Subject: [PATCH 079/147] fix: suppressOutput is respected for virtual columns

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f0eee9b..27ad6c7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2026,6 +2026,6 @@ class CSVW:
                 rownum))
 
         for col in table.tableSchema.columns:
-            if col.virtual:
+            if col.virtual and not col.suppressOutput:
                 triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From d7d410d162b97f8085eb3a8cd7d3b314e66e0ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 080/147] fix: row titles which are URIs are formatted in JSON

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 27ad6c7..803f4a5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1987,8 +1987,10 @@ class CSVW:
         res['rownum'] = rownum
         if table.tableSchema.rowTitles:
             res['titles'] = [
-                jsonld.format_value(row[name], cols.get(name))
-                for name in table.tableSchema.rowTitles if row.get(name) not in (None, '', [])]
+                t for t in [
+                    jsonld.format_value(row.get(name), cols.get(name))
+                    for name in table.tableSchema.rowTitles]
+                if t not in (None, '', [])]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From 97265f9b4c54e120898b3cf5b3c19d7e8d673e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 081/147] fix: surplus CSV columns are not taken for virtual
 columns in non-strict mode

---
 src/csvw/metadata.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 803f4a5..dcc961a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1520,19 +1520,17 @@ class Table(TableLike):
 
             # If columns in the data are ordered as in the spec, we can match values to
             # columns by index, rather than looking up columns by name.
-            if (header == colnames) or \
-                    (len(self.tableSchema.columns) >= len(header) and not strict):
+            if (header == colnames) or (len(colnames) >= len(header) and not strict):
                 # Note that virtual columns are only allowed to come **after** regular ones,
                 # so we can simply zip the whole columns list, and silently ignore surplus
                 # virtual columns.
                 header_cols = list(zip(header, self.tableSchema.columns))
-            elif not strict and self.tableSchema.columns and \
-                    (len(self.tableSchema.columns) < len(header)):
+            elif not strict and self.tableSchema.columns:
                 header_cols = []
                 for i, cname in enumerate(header):
-                    try:
+                    if i < len(colnames):
                         header_cols.append((cname, self.tableSchema.columns[i]))
-                    except IndexError:
+                    else:
                         header_cols.append((
                             '_col.{}'.format(i + 1),
                             Column.fromvalue({'name': '_col.{}'.format(i + 1)})))
-- 
2.43.0


From 889e0a385626e36a5bbd789913dcda2d68b95df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 082/147] fix: the values of lists are included directly among
 values of a repeated property in JSON

---
 src/csvw/jsonld.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 041429e..f638c1c 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -168,9 +168,9 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
             if not triple.about:
                 # For test48
                 if triple.property in grouped:
-                    if not isinstance(grouped[triple.property], list):
-                        grouped[triple.property] = [grouped[triple.property]]
-                    grouped[triple.property].append(triple.value)
+                    grouped[triple.property] = [
+                        v for value in (grouped[triple.property], triple.value)
+                        for v in (value if isinstance(value, list) else [value])]
                 else:
                     grouped[triple.property] = triple.value
             else:
-- 
2.43.0


From 2aa005db880f3dc94f9641ef8d4b27e58e1d31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 083/147] fix: values of repeated list properties keep the
 order of the columns in JSON

---
 src/csvw/jsonld.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index f638c1c..cbd8a73 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -147,11 +147,11 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     """
     merged = []
     for triple in triples:
-        if isinstance(triple.value, list):
+        if triple.about and isinstance(triple.value, list):
             for t in merged:
                 if t.about == triple.about and t.property == triple.property \
                         and isinstance(t.value, list):
-                    t.value.extend(triple.value)
+                    t.value = t.value + triple.value
                     break
             else:
                 merged.append(triple)
-- 
2.43.0


From adb2e2f7afd623be9360fa6ab02e134f53416af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 084/147] fix: types of objects are given as @type in JSON for
 rows describing one object, too

---
 src/csvw/jsonld.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index cbd8a73..ec8b273 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -141,6 +141,10 @@ def to_json(obj, flatten_list=False):
     return obj
 
 
+def typed(obj: dict) -> dict:
+    return collections.OrderedDict(('@type' if k == 'rdf:type' else k, v) for k, v in obj.items())
+
+
 def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     """
     Group and frame triples into a `list` of JSON objects.
@@ -176,7 +180,7 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
             else:
                 triples.append(triple)
     if not triples:
-        return [grouped]
+        return [typed(grouped)]
 
     g = Graph()
     for triple in triples:
@@ -195,6 +199,6 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     # the properties into a single object.
     if grouped and ('@id' not in grouped) and len(res) == 1:
         grouped.update(res[0])
-        return [grouped]
+        return [typed(grouped)]
 
-    return [grouped] + res if grouped and '@id' not in grouped else res
+    return [typed(grouped)] + res if grouped and '@id' not in grouped else res
-- 
2.43.0


From f35cb83b155c45dc30af9427317be4ed1bca5696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:51 +0000
Subject: [PATCH 085/147] fix: merging properties of a row and its only object
 doesn't lose values in JSON

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index ec8b273..486a170 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -197,7 +197,7 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
         res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
-    if grouped and ('@id' not in grouped) and len(res) == 1:
+    if grouped and ('@id' not in grouped) and len(res) == 1 and not set(typed(grouped)) & set(res[0]):
         grouped.update(res[0])
         return [typed(grouped)]
 
-- 
2.43.0


From 2c224ad128ea3053090d495cc69dc95a0c69d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 086/147] fix: escape characters are not escaped twice when
 writing CSV

---
 src/csvw/dsv.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 5094ef6..8d3aed4 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -35,6 +35,16 @@ __all__ = [
 LINES_OR_PATH = typing.Union[str, pathlib.Path, typing.IO, typing.Iterable[str]]
 
 
+def _escapes_escapechar() -> bool:
+    out = io.StringIO()
+    csv.writer(out, escapechar='\\').writerow(['\\'])
+    return out.getvalue().startswith('\\\\')
+
+
+# Fixed in Python 3.11 and maintenance releases of older versions.
+ESCAPES_ESCAPECHAR = _escapes_escapechar()
+
+
 def normalize_encoding(encoding: str) -> str:
     return codecs.lookup(encoding).name
 
@@ -75,7 +85,7 @@ class UnicodeWriter:
                 self.kw['dialect'] = dialect
         self.encoding = normalize_encoding(self.encoding)
         self.escapechar = self.kw.get('escapechar')
-        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
+        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE and not ESCAPES_ESCAPECHAR:
             # work around https://bugs.python.org/issue12178
             # (csv.writer doesn't escape escapechar while csv.reader expects it)
             def _escapedoubled(row,
-- 
2.43.0


From 6f4548268c69e9e4c9c3e9d28889ba311e7b7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:32 +0000
Subject: [PATCH 087/147] fix: the verdict of the validation does not depend on
 warning filters

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index dcc961a..4decc86 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1803,6 +1803,7 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                warnings.simplefilter('always', UserWarning)
 
             no_header = False
             try:
@@ -1860,6 +1861,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('always', UserWarning)
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
                     pass
-- 
2.43.0


From d35a808068d839b8a9cb49f67c3f19e4a6a8579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:36 +0000
Subject: [PATCH 088/147] fix: csvwvalidate reports data which cannot be read
 instead of crashing

---
 src/csvw/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index 3f599f8..f228984 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -1,3 +1,4 @@
+import csv
 import sys
 import json
 import shutil
@@ -78,7 +79,7 @@ def csvwvalidate(args=None, test=False):
             if args.verbose:
                 for w in csvw.warnings:
                     print(colored(str(w.message), 'blue'))
-    except ValueError as e:
+    except (ValueError, OSError, csv.Error) as e:
         ret = 2
         print(colored('FAIL', 'red', attrs=['bold']))
         if args.verbose:
-- 
2.43.0


From 717dccb9d6a659ad566f0676b52854e3778482ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:57 +0000
Subject: [PATCH 089/147] fix: CSV columns labeled with an alternative title
 are recognized

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4decc86..1594d22 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1063,7 +1063,7 @@ class Schema(Description):
         assert (not strict) or (col and col.name)
         if not col:
             for c in self.columns:
-                if c.titles and c.titles.getfirst() == name:
+                if any(name in titles for titles in (c.titles or {}).values()):
                     return c
                 if c.propertyUrl and c.propertyUrl.uri == name:
                     return c
-- 
2.43.0


From 4972db364357e5bb016878baa116930d3e98e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 090/147] fix: unrelated warnings do not influence the verdict
 of the validation

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1594d22..8de55db 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1803,6 +1803,7 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                warnings.simplefilter('ignore')
                 warnings.simplefilter('always', UserWarning)
 
             no_header = False
@@ -1861,6 +1862,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('ignore')
             warnings.simplefilter('always', UserWarning)
             for table in self.tables:
                 for _ in table.iterdicts(strict=False):
-- 
2.43.0


From 7a8b5de7ef7a02e53cb1f5505108d075f7b82b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:51 +0000
Subject: [PATCH 091/147] fix: zipped data is closed after reading

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8de55db..ad44a26 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1493,7 +1493,7 @@ class Table(TableLike):
                         names = [n for n in zipf.namelist() if n.endswith(fpath.name)]
                         # Prefer exact matches of the file name over matches of its ending.
                         names = [n for n in names if n.split('/')[-1] == fpath.name] or names
-                        handle = _text_handle(zipf.open(names[0]), dialect)
+                        handle = stack.enter_context(_text_handle(zipf.open(names[0]), dialect))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From fc4963757b3e5ec0f667a4029f7c1c0f4ebd9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 092/147] fix: metadata which is no JSON object or has an odd
 @context raises ValueError

---
 src/csvw/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ad44a26..46d2ca3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1819,8 +1819,11 @@ class CSVW:
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
+            if not isinstance(md, dict):
+                raise ValueError('Invalid metadata')
             self.no_metadata = set(md.keys()) == {'@context', 'url'}
-            if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
+            context = md.get('@context')
+            if not isinstance(context, (str, list)) or "http://www.w3.org/ns/csvw" not in context:
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
                 if not md['tables'] or not isinstance(md['tables'], list):
-- 
2.43.0


From 76d0c543de74ec1206b4788f81ec6f218fa4b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:07 +0000
Subject: [PATCH 093/147] fix: overriding metadata which cannot be read is not
 ignored

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 46d2ca3..311551a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1816,6 +1816,8 @@ class CSVW:
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
             except (json.decoder.JSONDecodeError, UnicodeDecodeError):
+                if md_url:
+                    raise
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-- 
2.43.0


From 8631e5ec653d0de5176e9e87d0430d02b46cb14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:10 +0000
Subject: [PATCH 094/147] fix: invalid linked or site-wide metadata is skipped
 when locating metadata

---
 src/csvw/metadata.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 311551a..9f64607 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1892,7 +1892,10 @@ class CSVW:
         `§5. Locating Metadata <https://w3c.github.io/csvw/syntax/#locating-metadata>`_
         """
         def describes(md, url):
-            for table in md.get('tables', [md]):
+            tables = md.get('tables', [md]) if isinstance(md, dict) else []
+            for table in tables if isinstance(tables, list) else []:
+                if not isinstance(table, dict) or not isinstance(table.get('url'), str):
+                    continue
                 # FIXME: We check whether the metadata describes a CSV file just superficially,
                 # by comparing the last path components of the respective URLs.
                 if url.split('/')[-1] == table['url'].split('/')[-1]:
@@ -1906,9 +1909,12 @@ class CSVW:
             res = requests.head(url)
             no_header = bool(re.search(r'header\s*=\s*absent', res.headers.get('content-type', '')))
             desc = res.links.get('describedby')
-            if desc and desc['type'] in [
+            if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
-                md = get_json(Link(desc['url']).resolve(url))
+                try:
+                    md = get_json(Link(desc['url']).resolve(url))
+                except json.JSONDecodeError:
+                    md = None
                 if describes(md, url):
                     return md, no_header
                 else:
@@ -1919,7 +1925,7 @@ class CSVW:
             # #default-locations-and-site-wide-location-configuration
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
-            for line in locs.split('\n'):
+            for line in filter(None, map(str.strip, locs.splitlines())):
                 res = requests.get(Link(URITemplate(line).expand(url=url)).resolve(url))
                 if res.status_code == 200:
                     try:
-- 
2.43.0


From 0404a0777ea5664dce590edd1d6b90a83b75811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 095/147] fix: links in located metadata are resolved against
 the location of the metadata

---
 src/csvw/metadata.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9f64607..236ae9a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1823,7 +1823,7 @@ class CSVW:
 
             if not isinstance(md, dict):
                 raise ValueError('Invalid metadata')
-            self.no_metadata = set(md.keys()) == {'@context', 'url'}
+            self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             context = md.get('@context')
             if not isinstance(context, (str, list)) or "http://www.w3.org/ns/csvw" not in context:
                 raise ValueError('Invalid or no @context')
@@ -1912,10 +1912,12 @@ class CSVW:
             if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
                 try:
-                    md = get_json(Link(desc['url']).resolve(url))
+                    location = Link(desc['url']).resolve(url)
+                    md = get_json(location)
                 except json.JSONDecodeError:
                     md = None
                 if describes(md, url):
+                    md.setdefault('@base', location)
                     return md, no_header
                 else:
                     warnings.warn('Ignoring linked metadata because it does not reference the data')
@@ -1926,11 +1928,13 @@ class CSVW:
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in filter(None, map(str.strip, locs.splitlines())):
-                res = requests.get(Link(URITemplate(line).expand(url=url)).resolve(url))
+                location = Link(URITemplate(line).expand(url=url)).resolve(url)
+                res = requests.get(location)
                 if res.status_code == 200:
                     try:
                         md = res.json()
                         if describes(md, url):
+                            md.setdefault('@base', location)
                             return md, no_header
                         warnings.warn('Ignoring metadata because it does not reference the data')
                     except json.JSONDecodeError:
-- 
2.43.0


From 705108a110fb028ab7fe15cfddf14b64193eb1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 096/147] fix: dialects referenced from local metadata are
 resolved against the location of the metadata

---
 src/csvw/metadata.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 236ae9a..2bfa1ed 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1105,11 +1105,12 @@ def valid_transformations(instance, attribute, value):
         Transformation.partition_properties(tr, type_name='Template')
 
 
-def resolve_schema_references(data: dict, base: typing.Union[str, pathlib.Path]) -> dict:
+def resolve_references(data: dict, base: typing.Union[str, pathlib.Path]) -> dict:
     def resolved(d):
-        if isinstance(d, dict) and isinstance(d.get('tableSchema'), str):
-            d = collections.OrderedDict(d)
-            d['tableSchema'] = str(Link(d['tableSchema']).resolve(base))
+        for prop in ['tableSchema', 'dialect']:
+            if isinstance(d, dict) and isinstance(d.get(prop), str):
+                d = collections.OrderedDict(d)
+                d[prop] = str(Link(d[prop]).resolve(base))
         return d
 
     res = resolved(data)
@@ -1200,7 +1201,7 @@ class TableLike(Description):
             return cls.from_url(str(fname), data=data)
         data = data or get_json(fname)
         if isinstance(data, dict) and isinstance(data.get('tables', []), list):
-            data = resolve_schema_references(data, pathlib.Path(fname).parent)
+            data = resolve_references(data, pathlib.Path(fname).parent)
         res = cls.fromvalue(data)
         res._fname = pathlib.Path(fname)
         return res
@@ -1213,7 +1214,7 @@ class TableLike(Description):
         data = data or get_json(url)
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
-        res = cls.fromvalue(resolve_schema_references(data, data['@base']))
+        res = cls.fromvalue(resolve_references(data, data['@base']))
         return res
 
     def to_file(self, fname: typing.Union[str, pathlib.Path], omit_defaults=True) -> pathlib.Path:
-- 
2.43.0


From 726daf435bb84deb7e554908d123a7237dbb513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 097/147] fix: dialects which cannot be retrieved raise
 ValueError

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2bfa1ed..cd95e48 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1168,7 +1168,11 @@ class TableLike(Description):
 
     def __attrs_post_init__(self):
         if isinstance(self.dialect, str):
-            self.dialect = Dialect(**dialect_props(get_json(Link(self.dialect).resolve(self.base))))
+            try:
+                dialect = get_json(Link(self.dialect).resolve(self.base))
+            except (OSError, ValueError) as e:
+                raise ValueError('Invalid dialect reference: {}'.format(e))
+            self.dialect = Dialect(**dialect_props(dialect))
         if self.tableSchema and not (isinstance(self.tableSchema, str)):
             self.tableSchema._parent = self
         if 'id' in self.at_props and self.at_props['id'] is None:
-- 
2.43.0


From 90f1401c50a7063cc682cbf4c2f3ac20466b3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:34 +0000
Subject: [PATCH 098/147] fix: rows with different keys (or orders of keys) are
 written to the right columns of the database

---
 src/csvw/db.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..3a61248 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -536,12 +536,12 @@ FROM {2} {3} GROUP BY {0}""".format(
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], []
+                rows = []
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
+                for row in items[t.name]:
                     pk = row[t.primary_key[0]] \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
                             assert pk
@@ -569,11 +569,15 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = json.dumps(v)
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
-                insert(db, self.translate, t.name, keys, *rows)
+                            values[k] = v
+                    rows.append(values)
+                keys = [k for k in cols if any(k in row for row in rows)]
+                insert(
+                    db,
+                    self.translate,
+                    t.name,
+                    keys,
+                    *[tuple(row.get(k) for k in keys) for row in rows])
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From 0bc3255056f8b16e3e532514792ccf1d25108c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 099/147] fix: columns of composite foreign keys keep their
 correspondence in the database

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 3a61248..57d3410 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -246,9 +246,9 @@ class TableSpec(object):
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        list(fk.columnReference),
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        list(fk.reference.columnReference),
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From 2bbcc807f06cc3d0759dd71b9c5351c3f8713460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:41 +0000
Subject: [PATCH 100/147] fix: databases with more than 100 tables can be
 created

---
 src/csvw/db.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 57d3410..42041de 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -326,19 +326,17 @@ def schema(tg: csvw.TableGroup,
 
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
-    i = 0
 
     # We loop through the tables repeatedly, and whenever we find one, which has all
     # referenced tables already in ordered, we move it from tables to ordered.
-    while tables and i < 100:
-        i += 1
+    while tables:
         for table in list(tables.keys()):
             if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                 # All referenced tables are already created (or self-referential).
                 ordered[table] = tables.pop(table)
                 break
-    if tables:  # pragma: no cover
-        raise ValueError('there seem to be cyclic dependencies between the tables')
+        else:
+            raise ValueError('there seem to be cyclic dependencies between the tables')
 
     return list(ordered.values())
 
-- 
2.43.0


From 401ff5b89f30db8a1cbb72d622deecab1c3a6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 101/147] fix: decimals are read from the database as they have
 been written

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 42041de..a9176db 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -61,7 +61,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(str(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From e59e306fc6fa4c5472006cc7da3773ff6c0fe4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 102/147] fix: values of lists of other datatypes than string
 are converted for the database

---
 src/csvw/db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index a9176db..ca5b0d7 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -476,7 +476,8 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif not v:
                                 d[k] = []
                             elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                                d[k] = [
+                                    v_ if v_ is None else convert[k][1](v_) for v_ in json.loads(v)]
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
@@ -564,7 +565,8 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    v = json.dumps(
+                                        [vv if vv is None else col.convert(vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
                             values[k] = v
-- 
2.43.0


From a0a729177fc40562a8a297b8a9db782f9162e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 103/147] fix: names containing backticks are quoted correctly
 in SQL

---
 src/csvw/db.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ca5b0d7..be76403 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -80,7 +80,7 @@ class ColumnTranslator(typing.Protocol):
 
 
 def quoted(*names):
-    return ','.join('`{0}`'.format(name) for name in names)
+    return ','.join('`{0}`'.format(name.replace('`', '``')) for name in names)
 
 
 def insert(db: sqlite3.Connection,
@@ -156,7 +156,7 @@ class ColSpec:
         """
         if not self.csvw:
             return
-        c, cname = self.csvw, translate(self.name)
+        c, cname = self.csvw, quoted(translate(self.name))
         constraints = []
         if (c.minimum is not None) or (c.maximum is not None):
             func = {
@@ -165,27 +165,27 @@ class ColSpec:
             }.get(self.csvw_type)
             if c.minimum is not None:
                 if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
+                    constraints.append("{2}({0}) >= {2}('{1}')".format(cname, c.minimum, func))
                 else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
+                    constraints.append('{0} >= {1}'.format(cname, c.minimum))
             if c.maximum is not None:
                 if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
+                    constraints.append("{2}({0}) <= {2}('{1}')".format(cname, c.maximum, func))
                 else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
+                    constraints.append('{0} <= {1}'.format(cname, c.maximum))
         elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
             if c.length:
-                constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
+                constraints.append('length({0}) = {1}'.format(cname, c.length))
             if c.minLength:
-                constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
+                constraints.append('length({0}) >= {1}'.format(cname, c.minLength))
             if c.maxLength:
-                constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
+                constraints.append('length({0}) <= {1}'.format(cname, c.maxLength))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
         _check = self.check(translate)
-        return '`{0}` {1}{2}{3}'.format(
-            translate(self.name),
+        return '{0} {1}{2}{3}'.format(
+            quoted(translate(self.name)),
             self.db_type,
             ' NOT NULL' if self.required else '',
             ' CHECK ({0})'.format(_check) if _check else '')
@@ -300,8 +300,8 @@ class TableSpec(object):
                 quoted(*[col_translate(c) for c in fk]),
                 quoted(translate(ref)),
                 quoted(*[translate(ref, c) for c in refcols])))
-        return "CREATE TABLE IF NOT EXISTS `{0}` (\n    {1}\n)".format(
-            translate(self.name), ',\n    '.join(clauses))
+        return "CREATE TABLE IF NOT EXISTS {0} (\n    {1}\n)".format(
+            quoted(translate(self.name)), ',\n    '.join(clauses))
 
 
 def schema(tg: csvw.TableGroup,
-- 
2.43.0


From 9a878cc856bc31ee9129a02cdd63d866d189869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:38 +0000
Subject: [PATCH 104/147] fix: SQL constraints for bounds and lengths agree
 with the datatypes

---
 src/csvw/db.py | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index be76403..42b8dca 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -154,32 +154,30 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:
+            # For list-valued columns, the individual values aren't available in the database.
             return
         c, cname = self.csvw, quoted(translate(self.name))
         constraints = []
-        if (c.minimum is not None) or (c.maximum is not None):
-            func = {
-                'date': 'date',
-                'datetime': 'datetime',
-            }.get(self.csvw_type)
-            if c.minimum is not None:
-                if func:
-                    constraints.append("{2}({0}) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('{0} >= {1}'.format(cname, c.minimum))
-            if c.maximum is not None:
-                if func:
-                    constraints.append("{2}({0}) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('{0} <= {1}'.format(cname, c.maximum))
-        elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
-            if c.length:
-                constraints.append('length({0}) = {1}'.format(cname, c.length))
-            if c.minLength:
-                constraints.append('length({0}) >= {1}'.format(cname, c.minLength))
-            if c.maxLength:
-                constraints.append('length({0}) <= {1}'.format(cname, c.maxLength))
+        for op, bound in [('>=', c.minimum), ('<=', c.maximum)]:
+            if bound is None or bound != bound:
+                continue
+            if isinstance(c.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+                value, bound = cname, str(bound)
+                if bound.lstrip('-').lower().startswith('inf'):
+                    bound = '-9e999' if bound.startswith('-') else '9e999'
+                if self.db_type == 'TEXT':
+                    value = "CASE {0} WHEN 'NaN' THEN NULL WHEN 'INF' THEN 9e999 WHEN '-INF' THEN " \
+                        "-9e999 ELSE CAST({0} AS NUMERIC) END".format(cname)
+                constraints.append('{0} {1} {2}'.format(value, op, bound))
+            elif isinstance(c.basetype(), DATATYPES['datetime']) and self.csvw_type != 'time':
+                constraints.append("{0}({1}) {2} {0}('{3}')".format(
+                    'date' if self.csvw_type == 'date' else 'datetime', cname, op, bound))
+        if self.csvw_type == 'hexBinary' or (
+                isinstance(c.basetype(), DATATYPES['string']) and self.csvw_type != 'json'):
+            for op, length in [('=', c.length), ('>=', c.minLength), ('<=', c.maxLength)]:
+                if length is not None:
+                    constraints.append('length({0}) {1} {2}'.format(cname, op, length))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
-- 
2.43.0


From a8fd5fed11915f5e8aa0d2be4337a2440cad5b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 105/147] fix: values of times don't depend on the day they are
 read

---
 src/csvw/datatypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 10e080b..e13ee31 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -360,9 +360,8 @@ class dateTime(anyAtomicType):
             # 6-digit number.
             comps['microsecond'] = comps['microsecond'][:6].ljust(6, '0')
         if cls == datetime.datetime and 'year' not in comps:
-            d = datetime.date.today()
             for a in ['year', 'month', 'day']:
-                comps[a] = getattr(d, a)
+                comps[a] = getattr(_time.date, a)
         res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
         if tz_marker:
             # Let dateutils take care of parsing the timezone info:
@@ -462,6 +461,8 @@ class _time(dateTime):
     """
     name = 'time'
     example = '20:20:20'
+    # Times don't have a date, thus, we use the same one for all of them - always.
+    date = datetime.date(1970, 1, 1)
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
@@ -472,7 +473,7 @@ class _time(dateTime):
         if pattern and 'x' in pattern.lower():
             if not match_datetime(regex, v, True):
                 dateTime.value_error(v)
-            return dateutil.parser.parse('{}T{}'.format(datetime.date.today().isoformat(), v))
+            return dateutil.parser.parse('{}T{}'.format(_time.date.isoformat(), v))
         assert regex is not None
         return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
 
-- 
2.43.0


From 2d6659fbe1ad60d280815891cd5516ce21f6be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 106/147] fix: infinite and NaN floats are written as specified
 by XSD

---
 src/csvw/datatypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index e13ee31..d3d3705 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -925,7 +925,9 @@ class _float(anyAtomicType):
             v = babel.numbers.format_decimal(v, pattern, 'en') if pattern \
                 else ('{:,}' if groupChar else '{}').format(v)
             return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
-        return '{}'.format(v)
+        if math.isinf(v):
+            return 'INF' if v > 0 else '-INF'
+        return 'NaN' if math.isnan(v) else '{}'.format(v)
 
 
 @register
-- 
2.43.0


From 51f692e81233911da64ec32a35942c5353f97343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 107/147] fix: time values can be read from the database

---
 src/csvw/db.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 42b8dca..eb20c98 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -30,6 +30,7 @@ import typing
 import decimal
 import pathlib
 import sqlite3
+import datetime
 import functools
 import contextlib
 import collections
@@ -66,6 +67,11 @@ TYPE_MAP = {
         'BLOB',
         identity,
         identity),
+    'time': (
+        'TEXT',
+        lambda s: s if s is None else s.timetz().isoformat(),
+        lambda s: s if s is None else datetime.datetime.combine(
+            DATATYPES['time'].date, datetime.time.fromisoformat(s))),
 }
 
 
-- 
2.43.0


From 0afe328d7a4b451e03bc4c9c309dc5544e351d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 108/147] fix: list-valued foreign keys of any datatype are
 read from the database as written

---
 src/csvw/db.py | 60 +++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index eb20c98..394254b 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -229,7 +229,12 @@ class TableSpec(object):
         :return: `TableSpec` instance.
         """
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
-        list_valued = {c.header for c in table.tableSchema.columns if c.separator}
+        list_valued = {c.header for c in table.tableSchema.columns if c.inherit('separator')}
+
+        def csvw_type(cname):
+            datatype = table.tableSchema.columndict[cname].inherit('datatype')
+            return datatype.base if datatype else datatype
+
         for fk in table.tableSchema.foreignKeys:
             # We only support Foreign Key references between tables!
             if not fk.reference.schemaReference:
@@ -247,6 +252,8 @@ class TableSpec(object):
                         spec.primary_key[0],
                         fk.reference.resource.string,
                         fk.reference.columnReference[0],
+                        apk_type=csvw_type(spec.primary_key[0]),
+                        bpk_type=csvw_type(fk.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
@@ -267,7 +274,8 @@ class TableSpec(object):
         return spec
 
     @classmethod
-    def association_table(cls, atable, apk, btable, bpk) -> 'TableSpec':
+    def association_table(
+            cls, atable, apk, btable, bpk, apk_type=None, bpk_type=None) -> 'TableSpec':
         """
         List-valued foreignKeys are supported as follows: For each pair of tables related through a
         list-valued foreign key, an association table is created. To make it possible to distinguish
@@ -275,8 +283,8 @@ class TableSpec(object):
         a column `context`, which stores the name of the foreign key column from which a row in the
         assocation table was created.
         """
-        afk = ColSpec('{0}_{1}'.format(atable, apk))
-        bfk = ColSpec('{0}_{1}'.format(btable, bpk))
+        afk = ColSpec('{0}_{1}'.format(atable, apk), csvw_type=apk_type)
+        bfk = ColSpec('{0}_{1}'.format(btable, bpk), csvw_type=bpk_type)
         if afk.name == bfk.name:
             afk.name += '_1'
             bfk.name += '_2'
@@ -406,21 +414,16 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
-        if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
-        else:
-            context_sql = ''
-        sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
-                quoted(self.translate(table.name, table.columns[0].name)),
-                quoted(self.translate(table.name, table.columns[1].name)),
-                quoted(self.translate(table.name)),
-                context_sql)
-        cu = db.execute(sql)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+        pk, fk = table.columns[:2]
+        sql = "SELECT {0}, context FROM {1} {2} ORDER BY rowid".format(
+            quoted(*[self.translate(table.name, c.name) for c in (pk, fk)]),
+            quoted(self.translate(table.name)),
+            '' if context is None else 'WHERE context = ?')
+        res = collections.defaultdict(list)
+        for k, v, ctx in db.execute(sql, () if context is None else (context,)):
+            v = fk.read(v)
+            res[k].append((v, ctx or '') if context is None else v)
+        return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
@@ -448,7 +451,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 # FIXME: how much do we want to use DB types? Probably as much as possible!
                 # Thus we need to convert on write **and** read!
                 #
-                convert, seps, refs = {}, {}, collections.defaultdict(dict)
+                convert, seps, refs = {}, {}, {}
                 table = self.tdict[tname]  # The TableSpec object.
 
                 # Assemble the conversion dictionary:
@@ -467,8 +470,7 @@ FROM {2} {3} GROUP BY {0}""".format(
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
-                    for pk, v in self.select_many_to_many(conn, at, col).items():
-                        refs[pk][self.translate(tname, col)] = v
+                    refs[self.translate(tname, col)] = self.select_many_to_many(conn, at, col)
 
                 cols, rows = select(conn, self.translate(tname))
                 for row in rows:
@@ -486,10 +488,10 @@ FROM {2} {3} GROUP BY {0}""".format(
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
                             d[k] = convert[k][1](v) if v is not None else None
-                    pk = d[self.translate(tname, table.primary_key[0])] \
-                        if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
-                    d.update(refs.get(pk, {}))
+                    if table.many_to_many:
+                        pk = dict(zip(cols, row))[self.translate(tname, table.primary_key[0])]
+                        for k, items in refs.items():
+                            d[k] = items.get(pk, [])
                     res[self.translate(tname)].append(d)
         return res
 
@@ -547,14 +549,16 @@ FROM {2} {3} GROUP BY {0}""".format(
                     values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None
                             at = t.many_to_many[k]
+                            pk_col, fk_col = at.columns[:2]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
                             # values of list-valued columns.
                             for vv in (v or []):
                                 fkey, context = self.association_table_context(t, k, vv)
-                                refs[atkey].append((pk, fkey, context))
+                                refs[atkey].append(
+                                    (pk_col.convert(pk), fk_col.convert(fkey), context))
                         else:
                             if k not in cols:
                                 if _skip_extra:
-- 
2.43.0


From d56322bfa6b098d235c96d84794de314642ba12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 109/147] fix: the context column of association tables is
 translated when reading

---
 src/csvw/db.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 394254b..90c7061 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -414,14 +414,16 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
-        pk, fk = table.columns[:2]
-        sql = "SELECT {0}, context FROM {1} {2} ORDER BY rowid".format(
-            quoted(*[self.translate(table.name, c.name) for c in (pk, fk)]),
+        pk, fk, ctx = [quoted(self.translate(table.name, c.name)) for c in table.columns]
+        sql = "SELECT {0}, {1}, {2} FROM {3} {4} ORDER BY rowid".format(
+            pk,
+            fk,
+            ctx,
             quoted(self.translate(table.name)),
-            '' if context is None else 'WHERE context = ?')
+            '' if context is None else 'WHERE {0} = ?'.format(ctx))
         res = collections.defaultdict(list)
         for k, v, ctx in db.execute(sql, () if context is None else (context,)):
-            v = fk.read(v)
+            v = table.columns[1].read(v)
             res[k].append((v, ctx or '') if context is None else v)
         return res
 
-- 
2.43.0


From b15935f8c0a4a31087d673fbac978bdc24472871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:03 +0000
Subject: [PATCH 110/147] fix: foreign keys may reference other columns than
 the primary key in the database

---
 src/csvw/db.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 90c7061..1d608ac 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -214,6 +214,7 @@ class TableSpec(object):
     foreign_keys = attr.ib(default=attr.Factory(list))
     many_to_many = attr.ib(default=attr.Factory(collections.OrderedDict))
     primary_key = attr.ib(default=None)
+    unique = attr.ib(default=attr.Factory(list))
 
     @classmethod
     def from_table_metadata(cls,
@@ -307,6 +308,8 @@ class TableSpec(object):
         if self.primary_key:
             clauses.append('PRIMARY KEY({0})'.format(quoted(
                 *[col_translate(c) for c in self.primary_key])))
+        for cols in self.unique:
+            clauses.append('UNIQUE({0})'.format(quoted(*[col_translate(c) for c in cols])))
         for fk, ref, refcols in self.foreign_keys:
             clauses.append('FOREIGN KEY({0}) REFERENCES {1}({2}) ON DELETE CASCADE'.format(
                 quoted(*[col_translate(c) for c in fk]),
@@ -336,6 +339,13 @@ def schema(tg: csvw.TableGroup,
         for at in t.many_to_many.values():
             tables[at.name] = at
 
+    # SQLite requires columns referenced by foreign keys to be the primary key or unique.
+    for t in tables.values():
+        for _, ref, refcols in t.foreign_keys:
+            if ref in tables and sorted(refcols) not in [
+                    sorted(cols) for cols in [tables[ref].primary_key or []] + tables[ref].unique]:
+                tables[ref].unique.append(refcols)
+
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
 
-- 
2.43.0


From 338cd5dd3b132e216b3da131fd139e473983d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 111/147] fix: interrupted or failed insertion of rows isn't
 completed by the retry for debugging

---
 src/csvw/db.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 1d608ac..af943cf 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -113,14 +113,14 @@ def insert(db: sqlite3.Connection,
             ','.join(['?' for _ in keys]))
         try:
             db.executemany(sql, rows)
-        except:  # noqa: E722 - this is purely for debugging.
+        except Exception:  # this is purely for debugging.
             if not single:
                 for row in rows:
                     insert(db, translate, table, keys, row, single=True)
             else:
                 print(sql)
                 print(rows)
-                raise
+            raise
 
 
 def select(db: sqlite3.Connection, table: str) -> typing.Tuple[typing.List[str], typing.Sequence]:
-- 
2.43.0


From 6aab4391dc2b834d6e1fc0b9b0260ec4ded5ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 112/147] fix: JSON arrays as atomic values are written to the
 database

---
 src/csvw/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index af943cf..1b23b75 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -579,7 +579,8 @@ class Database(object):
                                     raise ValueError(
                                         'unspecified column {0} found in data'.format(k))
                             col = cols[k]
-                            if isinstance(v, list):
+                            if isinstance(v, list) and (
+                                    col.separator or col.csvw_type != 'json'):
                                 # Note: This assumes list-valued columns are of datatype string!
                                 if col.csvw_type == 'string':
                                     v = (col.separator or ';').join(
-- 
2.43.0


From b8d9bccf42841ade441a4d8a55f8c6fc541f107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 113/147] fix: creating description objects doesn't change the
 common properties passed in

---
 src/csvw/metadata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index cd95e48..b2bf4f9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -377,6 +377,7 @@ def valid_id_property(v):
 
 def valid_common_property(v):
     if isinstance(v, dict):
+        v = dict(v)  # We must not change the object passed in.
         if not {k[1:] for k in v if k.startswith('@')}.issubset(
                 {'id', 'language', 'type', 'value'}):
             raise ValueError(
-- 
2.43.0


From cc75b82c41cb503d497af140e38b24fdf5cb16fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 114/147] fix: creating description objects doesn't change the
 @context passed in

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b2bf4f9..62caf83 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -9,6 +9,7 @@ This module implements (partially) the W3C recommendation
 """
 import io
 import re
+import copy
 import json
 import shutil
 import decimal
@@ -1180,6 +1181,7 @@ class TableLike(Description):
             self.at_props['id'] = self.base
         ctx = self.at_props.get('context')
         if isinstance(ctx, list):
+            self.at_props['context'] = ctx = copy.deepcopy(ctx)
             for obj in ctx:
                 if (isinstance(obj, dict) and not set(obj.keys()).issubset({'@base', '@language'}))\
                         or (isinstance(obj, str) and obj != 'http://www.w3.org/ns/csvw'):
-- 
2.43.0


From ca78dc7c165a910bdd4eb67b5d922369d9f52e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 115/147] fix: from_url doesn't change the data passed in

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 62caf83..6dcca21 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1218,7 +1218,7 @@ class TableLike(Description):
         """
         Instantiate a CSVW Table or TableGroup description from a metadata file specified by URL.
         """
-        data = data or get_json(url)
+        data = dict(data or get_json(url))
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
         res = cls.fromvalue(resolve_references(data, data['@base']))
-- 
2.43.0


From 6fd27557dccdf7167dba282a5c5721e4f3277261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 116/147] fix: characters which aren't the specified
 decimalChar or groupChar are invalid in numbers

---
 src/csvw/datatypes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index d3d3705..d331ae1 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -601,6 +601,9 @@ class decimal(anyAtomicType):
         if isinstance(v, str) and re.search('{0}{0}+'.format(re.escape(groupChar or ',')), v):
             raise ValueError('Invalid value for decimal')
 
+        if isinstance(v, str) and '.' in v and '.' not in (decimalChar or '.', groupChar):
+            raise ValueError('Invalid value for decimal')
+
         if groupChar is None and pattern and ',' in pattern:
             groupChar = ','
         if decimalChar is None and pattern and '.' in pattern:
@@ -904,6 +907,11 @@ class _float(anyAtomicType):
         if isinstance(v, str) and groupChar and groupChar * 2 in v:
             _float.value_error(v)
 
+        if isinstance(v, str) and (
+                ('.' in v and '.' not in (decimalChar or '.', groupChar)) or
+                (',' in v and ',' not in (decimalChar, groupChar or ','))):
+            _float.value_error(v)
+
         if isinstance(v, str) and (decimalChar or groupChar):
             v = replace_chars(v, {groupChar or ',': ',', decimalChar or '.': '.'})
 
-- 
2.43.0


From 8dc0919769827a9e7f776e57362b09288c337f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:45 +0000
Subject: [PATCH 117/147] fix: numbers with more digits than the decimal
 context can be formatted with patterns

---
 src/csvw/datatypes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index d331ae1..62aa96b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -535,6 +535,13 @@ class yearMonthDuration(duration):
     name = 'yearMonthDuration'
 
 
+def format_pattern(v, pattern):
+    # babel uses the current context, the precision of which may be less than the digits of v.
+    with _decimal.localcontext() as ctx:
+        ctx.prec = 10000
+        return babel.numbers.format_decimal(v, pattern, 'en')
+
+
 def replace_chars(s: str, mapping: dict) -> str:
     """
     Simultaneous replacement, i.e. the result of a replacement is not subject to another one.
@@ -644,7 +651,7 @@ class decimal(anyAtomicType):
             return decimal._reverse_special['{}'.format(v)]
 
         if pattern:
-            v = babel.numbers.format_decimal(v, pattern, 'en')
+            v = format_pattern(v, pattern)
             return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
         if isinstance(v, float) and math.isfinite(v):
@@ -930,7 +937,7 @@ class _float(anyAtomicType):
     @staticmethod
     def to_string(v, pattern=None, decimalChar=None, groupChar=None, **kw):
         if (pattern or decimalChar or groupChar) and math.isfinite(v):
-            v = babel.numbers.format_decimal(v, pattern, 'en') if pattern \
+            v = format_pattern(v, pattern) if pattern \
                 else ('{:,}' if groupChar else '{}').format(v)
             return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
         if math.isinf(v):
-- 
2.43.0


From a640f9fa58539b8d020f67e59af2ec7ca03a7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 118/147] fix: percentages with more digits than the decimal
 context are read exactly

---
 src/csvw/datatypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 62aa96b..4907682 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -640,8 +640,12 @@ class decimal(anyAtomicType):
                 decimal.value_error(v)
         try:
             res = _decimal.Decimal(repr(v) if isinstance(v, float) else v)
+            if factor == 1:
+                return res
             # Arithmetic is subject to rounding to the precision of the decimal context.
-            return res if factor == 1 else res * factor
+            with _decimal.localcontext() as ctx:
+                ctx.prec = len(res.as_tuple().digits) + 3
+                return res * factor
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From b366b15c447c5166ebb5c7d7bdf1b0aade1da131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 119/147] fix: data packages can be read from paths specified
 as string

---
 src/csvw/frictionless.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 3bd0200..75fa9de 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -161,8 +161,9 @@ class DataPackage:
         if isinstance(spec, dict):
             # already a parsed JSON object
             self.dir = pathlib.Path(directory or '.')
-        elif isinstance(spec, pathlib.Path):
-            self.dir = directory or spec.parent
+        elif isinstance(spec, pathlib.Path) or not spec.lstrip().startswith('{'):
+            spec = pathlib.Path(spec)
+            self.dir = pathlib.Path(directory or spec.parent)
             spec = json.loads(spec.read_text(encoding='utf8'))
         else:  # assume a JSON formatted string
             spec = json.loads(spec)
-- 
2.43.0


From 4eba292b03d0f749047187a1ebbed271873b1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 120/147] fix: required constraint of frictionless fields is
 enforced

---
 src/csvw/frictionless.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 75fa9de..7422ba1 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -70,7 +70,9 @@ def convert_column_spec(spec):
         res['propertyUrl'] = spec['rdfType']
 
     constraints = spec.get('constraints', {})
-    for prop in ['required', 'minLength', 'maxLength', 'minimum', 'maximum']:
+    if 'required' in constraints:
+        res['required'] = constraints['required']
+    for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
         if ('pattern' in constraints) and ('format' not in res['datatype']):
-- 
2.43.0


From 0a53bcee7e4efca9f2f1e6b595a73ea4ed871a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:19 +0000
Subject: [PATCH 121/147] fix: pattern constraint of frictionless fields is
 only a format of string types

---
 src/csvw/frictionless.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 7422ba1..76587bf 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -75,7 +75,10 @@ def convert_column_spec(spec):
     for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
-        if ('pattern' in constraints) and ('format' not in res['datatype']):
+        # For these types, the format is no regular expression.
+        if ('pattern' in constraints) and ('format' not in res['datatype']) \
+                and res['datatype']['base'] not in [
+                    'number', 'integer', 'boolean', 'date', 'time', 'datetime']:
             res['datatype']['format'] = constraints['pattern']
         # FIXME: we could transform the "enum" constraint for string into
         # a regular expression in the "format" property.
-- 
2.43.0


From 555dc82e1ee9ba34bffbbf8a2a0afdd149873d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 122/147] fix: general properties of frictionless dialects
 aren't dropped if there are csv properties

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 76587bf..609c9c4 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -137,7 +137,7 @@ def convert_dialect(rsc):
     d = rsc.get('dialect', {})
     # Work around https://github.com/frictionlessdata/frictionless-py/issues/1506
     if 'csv' in d:
-        d = d['csv']
+        d = dict(d, **d['csv'])
     res = {}
     if d.get('delimiter'):
         res['delimiter'] = d['delimiter']
-- 
2.43.0


From bc821cb7754f3c84226184b2c06cf841749bd160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 123/147] fix: frictionless foreign keys without or with
 unknown resource don't crash

---
 src/csvw/frictionless.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 609c9c4..530eba2 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -91,11 +91,14 @@ def convert_foreignKey(rsc_name, fk, resource_map):
     """
     # Rename "fields" to "columnReference" and map resource name to url (resolving self-referential
     # foreign keys).
+    rsc = fk['reference'].get('resource') or rsc_name
+    if rsc not in resource_map:
+        raise ValueError('foreign key references unknown resource: {}'.format(rsc))
     return dict(
         columnReference=fk['fields'],
         reference=dict(
             columnReference=fk['reference']['fields'],
-            resource=resource_map[fk['reference']['resource'] or rsc_name],
+            resource=resource_map[rsc],
         )
     )
 
-- 
2.43.0


From 3b00c5cadb1cf84627cbfe56e31c41e55f5a5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:23 +0000
Subject: [PATCH 124/147] fix: csvwdescribe accepts all delimiters, tabs and
 quotes included

---
 src/csvw/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index f228984..ac6337a 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -42,7 +42,7 @@ def csvwdescribe(args=None, test=False):
     )
     fargs = ['describe', '--json']
     if args.delimiter:
-        fargs.extend(['--dialect', '{"delimiter": "%s"}' % args.delimiter])
+        fargs.extend(['--dialect', json.dumps({'delimiter': args.delimiter})])
     onefile = False
     if len(args.csv) == 1 and '*' not in args.csv[0]:
         onefile = True
-- 
2.43.0


From c7000fbda156f2762f559f77825b5a67b92a1929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 125/147] fix: csvw2sqlite and csvw2markdown accept URLs as
 documented

---
 src/csvw/__main__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index ac6337a..728a378 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -9,6 +9,7 @@ import subprocess
 from termcolor import colored
 
 from csvw import CSVW, TableGroup
+from csvw.metadata import is_url
 from csvw.db import Database
 from csvw.utils import metadata2markdown
 
@@ -28,6 +29,10 @@ def exit(ret, test=False):
     sys.exit(ret)  # pragma: no cover
 
 
+def read_tablegroup(url):
+    return TableGroup.from_url(url) if is_url(url) else TableGroup.from_file(url)
+
+
 def csvwdescribe(args=None, test=False):
     frictionless = shutil.which('frictionless')
     if not frictionless:  # pragma: no cover
@@ -138,7 +143,7 @@ def csvw2sqlite(args=None, test=False):  # pragma: no cover
             ['output'],
             dict(help='Path for the generated SQLite database file.')),
     )
-    tg = TableGroup.from_file(args.url)
+    tg = read_tablegroup(args.url)
     db = Database(tg, args.output)
     db.write_from_tg(_force=True)
     return exit(0, test=test)
@@ -155,7 +160,7 @@ def csvw2markdown(args=None, test=False):
                       'limitation is that all tables which are referenced by foreign keys must '
                       'have a primary key.')),
     )
-    tg = TableGroup.from_file(args.url)
+    tg = read_tablegroup(args.url)
     print(metadata2markdown(tg, link_files=True))
     return exit(0, test=test)
 
-- 
2.43.0


From 2255b1f3567eb88427684c81d3cf7737dbe38749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 126/147] fix: csvwdescribe doesn't drop files without .csv
 suffix when describing several

---
 src/csvw/__main__.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index 728a378..76e6813 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -48,18 +48,18 @@ def csvwdescribe(args=None, test=False):
     fargs = ['describe', '--json']
     if args.delimiter:
         fargs.extend(['--dialect', json.dumps({'delimiter': args.delimiter})])
-    onefile = False
-    if len(args.csv) == 1 and '*' not in args.csv[0]:
-        onefile = True
+
+    def describe(*fargs):
+        return json.loads(subprocess.check_output([frictionless, *fargs]))
+
+    if any('*' in p for p in args.csv):
+        dp = describe(*fargs, '--type', 'package', *args.csv)
+    else:
         # Make sure we infer a tabular-data schema even if the file suffix does not suggest a CSV
         # file.
-        fargs.extend(['--format', 'csv'])
-    else:
-        fargs.extend(['--type', 'package'])
-
-    dp = json.loads(subprocess.check_output([frictionless] + fargs + args.csv))
-    if onefile:
-        dp = dict(resources=[dp], profile='data-package')
+        dp = dict(
+            resources=[describe(*fargs, '--format', 'csv', p) for p in args.csv],
+            profile='data-package')
 
     tg = TableGroup.from_frictionless_datapackage(dp)
     print(json.dumps(tg.asdict(), indent=4))
-- 
2.43.0


From 6181227a1d953e44a5a906efd810c8fb713a560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:45 +0000
Subject: [PATCH 127/147] fix: csvw2datasette works for CSV files without
 metadata

---
 src/csvw/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index 76e6813..f7fa1d1 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -8,7 +8,7 @@ import subprocess
 
 from termcolor import colored
 
-from csvw import CSVW, TableGroup
+from csvw import CSVW, Column, TableGroup
 from csvw.metadata import is_url
 from csvw.db import Database
 from csvw.utils import metadata2markdown
@@ -101,6 +101,12 @@ def csvw2datasette(args=None, test=False):
     )
     dbname, mdname = 'datasette.db', 'datasette-metadata.json'
     csvw = CSVW(args.url)
+    for table in csvw.tables:
+        if not table.tableSchema.columns:
+            # CSV without column descriptions, so the rows' keys come from the header.
+            for name in next(iter(table), []):
+                table.tableSchema.columns.append(
+                    Column(name=name, parent=table.tableSchema))
     db = Database(csvw.tablegroup, fname=args.outdir / dbname)
     db.write_from_tg()
     md = {}
-- 
2.43.0


From a1a63611d0b35102e6e442863c3b1028c2c64e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 128/147] fix: add_rows leaves no temporary file behind when
 failing

---
 src/csvw/dsv.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 8d3aed4..17806a4 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -427,12 +427,16 @@ def add_rows(fname: typing.Union[str, pathlib.Path], *rows: typing.List[str]):
         tmp = pathlib.Path(fp.name)
 
     fname = utils.ensure_path(fname)
-    with UnicodeWriter(tmp) as writer:
-        if fname.exists():
-            with UnicodeReader(fname) as reader_:
-                for row in reader_:
-                    writer.writerow(row)
-        writer.writerows(rows)
+    try:
+        with UnicodeWriter(tmp) as writer:
+            if fname.exists():
+                with UnicodeReader(fname) as reader_:
+                    for row in reader_:
+                        writer.writerow(row)
+            writer.writerows(rows)
+    except BaseException:
+        tmp.unlink()  # Don't leave partial output behind.
+        raise
     shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
 
 
-- 
2.43.0


From 9e6c35ed5d355cfbc898705a1f1539ff2dfb2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:41 +0000
Subject: [PATCH 129/147] fix: base64 with characters outside of the alphabet
 is invalid

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4907682..bd8c975 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -185,7 +185,8 @@ class base64Binary(anyAtomicType):
         except UnicodeEncodeError:
             base64Binary.value_error(v[:10])
         try:
-            res = base64.decodebytes(res)
+            # Whitespace is allowed, see to_string.
+            res = base64.b64decode(b''.join(res.split()), validate=True)
         except Exception:
             raise ValueError('invalid base64 encoding')
         return res
-- 
2.43.0


From 37b936047e17072170e4ce748c417be49df7f98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 130/147] fix: values of updated dialects are converted like
 those of new ones

---
 src/csvw/dsv_dialects.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index 15fdf09..ac6be9c 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -122,10 +122,7 @@ class Dialect(object):
             cond=lambda s: s in ['true', 'false', 'start', 'end'])('{0}'.format(v).lower() if isinstance(v, bool) else v))
 
     def updated(self, **kw):
-        res = self.__class__(**attr.asdict(self))
-        for k, v in kw.items():
-            setattr(res, k, v)
-        return res
+        return self.__class__(**dict(attr.asdict(self), **kw))
 
     @functools.cached_property
     def escape_character(self):
-- 
2.43.0


From b345fc94973c6e326fb9638c42799f650f8cd811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:42 +0000
Subject: [PATCH 131/147] fix: identifier and notes of a table group included
 in the JSON output

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6dcca21..243401b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1972,7 +1972,11 @@ class CSVW:
         res = collections.OrderedDict()
         # Insert any notes and non-core annotations specified for the group of tables into object
         # G according to the rules provided in § 5. JSON-LD to JSON.
-        if self.t.common_props and not isinstance(self.t, Table):
+        if not isinstance(self.t, Table):
+            if 'id' in self.t.at_props:
+                res['@id'] = self.t.at_props['id']
+            if self.t.notes:
+                res['notes'] = jsonld.to_json(self.t.notes)
             res.update(jsonld.to_json(self.t.common_props, flatten_list=True))
         res['tables'] = [
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
-- 
2.43.0


From c0a6d8fcc7241ff19baaf0717e159d3295f316a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 132/147] fix: only the comment prefix is stripped from
 comments

---
 src/csvw/dsv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 17806a4..2f6a0f2 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -238,10 +238,10 @@ class UnicodeReader:
                 if (row and self.dialect.commentPrefix and  # noqa: W504
                         row[0].startswith(self.dialect.commentPrefix)) or \
                         (row and self.lineno < self.dialect.skipRows):
-                    self.comments.append((
-                        self.lineno,
-                        self.dialect.delimiter.join(row).lstrip(self.dialect.commentPrefix).strip(),
-                    ))
+                    comment, prefix = self.dialect.delimiter.join(row), self.dialect.commentPrefix
+                    if prefix and comment.startswith(prefix):
+                        comment = comment[len(prefix):]
+                    self.comments.append((self.lineno, comment.strip()))
                 row = self._next_row()
             row = [self.dialect.trimmer(s) for s in row][self.dialect.skipColumns:]
         return row
-- 
2.43.0


From 107375f6636878c25861ce831f264fc17fa752b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 133/147] fix: only texts in the lexical space of floating
 point numbers are read as such

---
 src/csvw/datatypes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index bd8c975..6ec30bd 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -934,6 +934,10 @@ class _float(anyAtomicType):
         if isinstance(v, str) and (groupChar or (pattern and ',' in pattern)):
             v = v.replace(',', '')
 
+        # Python recognizes more, e.g. "1_000", non-ASCII digits or "infinity".
+        if isinstance(v, str) and not re.fullmatch(
+                r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?INF|NaN', v.strip()):
+            _float.value_error(v)
         try:
             return float(v)
         except (TypeError, ValueError):
-- 
2.43.0


From 99e48ab1dbc08110191ca77f155b75feeb015f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:59 +0000
Subject: [PATCH 134/147] fix: number of exponent digits checked for number
 patterns with explicit sign of the exponent

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 6ec30bd..98d51a5 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1310,7 +1310,7 @@ class NumberPattern:
         for c in exponent:
             if c in '0#':
                 i += 1
-            elif c in ',':
+            elif c in ',+':
                 continue
             else:
                 break
-- 
2.43.0


From 8e2283830c18ebfe56715cb657c61e2713bdf154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:25 +0000
Subject: [PATCH 135/147] fix: look up lists which are values of JSON foreign
 key columns as a whole

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 243401b..fdb1a2f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1778,7 +1778,8 @@ class TableGroup(TableLike):
                         colref = get_ref(item)
                         if colref is None:
                             continue
-                        elif single_column and isinstance(colref, list):
+                        elif single_column and \
+                                child.tableSchema.get_column(ref[0]).inherit('separator'):
                             # We allow list-valued columns as foreign key columns in case
                             # it's not a composite key. If a foreign key is list-valued, we
                             # check for a matching row for each of the values in the list.
-- 
2.43.0


From 39f13acb1bdd90e0cf56f5fa644aefd2106df5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:42 +0000
Subject: [PATCH 136/147] fix: do not fail with TypeError checking composite
 foreign keys containing URIs

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fdb1a2f..a161214 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1787,7 +1787,7 @@ class TableGroup(TableLike):
                         else:
                             colrefs = [colref]
                         for colref in colrefs:
-                            if not single_column and None in colref:  # pragma: no cover
+                            if not single_column and any(c is None for c in colref):
                                 # TODO: raise if any(c is not None for c in colref)?
                                 continue
                             elif _hashable(colref) not in seen:
-- 
2.43.0


From 39bce195443222d4610e29a3a61531951e7312a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:19 +0000
Subject: [PATCH 137/147] fix: ignore invalid number patterns for floats with a
 warning, too

---
 src/csvw/metadata.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a161214..c661290 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -655,9 +655,8 @@ class Datatype(DescriptionBase):
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
             raise ValueError('datatype @id MUST NOT be the URL of a built-in datatype.')
 
-        if isinstance(self.basetype(), DATATYPES['decimal']) and \
-                'pattern' in self.derived_description:
-            if not set(self.derived_description['pattern']).issubset(set('#0.,;%‰E-+')):
+        if isinstance(self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
+            if not set(self.derived_description.get('pattern') or '').issubset(set('#0.,;%‰E-+')):
                 self.format = None
                 warnings.warn('Invalid number pattern')
 
-- 
2.43.0


From 4cdeb05bdfff46db981ac7c91d0251f0190cd5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:38 +0000
Subject: [PATCH 138/147] fix: only replace the prefix of a prefixed name with
 its namespace

---
 src/csvw/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index cecde1a..cc5516f 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -118,7 +118,7 @@ def qname2url(qname):
         'prov': 'http://www.w3.org/ns/prov#',
     }.items():
         if qname.startswith(prefix + ':'):
-            return qname.replace(prefix + ':', uri)
+            return uri + qname[len(prefix) + 1:]
 
 
 def metadata2markdown(tg, link_files=False) -> str:
-- 
2.43.0


From 668e5cb250f4c7efec5bd765a4c1745eec195e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:55 +0000
Subject: [PATCH 139/147] fix: validate the data again when CSVW.is_valid is
 accessed again

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c661290..4dbaaf4 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1861,6 +1861,7 @@ class CSVW:
             self.common_props = self.t.common_props
         if w:
             self.warnings.extend(w)
+        self._metadata_warnings = list(self.warnings)
 
     @property
     def is_valid(self) -> bool:
@@ -1872,6 +1873,8 @@ class CSVW:
             For this to also catch problems during metadata location, the
             `CSVW` instance must be initialized with `validate=True`.
         """
+        # Warnings from an earlier validation may concern data which has been changed since.
+        self.warnings = list(self._metadata_warnings)
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
-- 
2.43.0


From 5779179388e18833c96f720b7d8cbcf14e4de716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:32 +0000
Subject: [PATCH 140/147] fix: look up foreign key columns given by title or
 property URL, too

---
 src/csvw/metadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4dbaaf4..a04066f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1746,9 +1746,12 @@ class TableGroup(TableLike):
             fkeys = self.foreign_keys()
         except KeyError:  # An unknown table is referenced, see above.
             return False
-        # Keys with unknown columns - see above - cannot be checked.
+        # Keys with unknown columns - see above - cannot be checked. Columns may be referenced by
+        # title or property URL, too, but rows are keyed by column header.
         fkeys = [
-            (st, sc, tt, tc) for st, sc, tt, tc in fkeys
+            (st, [st.tableSchema.get_column(c).header for c in sc],
+             tt, [tt.tableSchema.get_column(c).header for c in tc])
+            for st, sc, tt, tc in fkeys
             if all(st.tableSchema.get_column(c) for c in sc)
             and all(tt.tableSchema.get_column(c) for c in tc)]
         # FIXME: We only support Foreign Key references between tables!
-- 
2.43.0


From 3ea95bf178b96bb4374eeac38df5e05e12a010dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:10 +0000
Subject: [PATCH 141/147] fix: compute the derived properties of dialects from
 their current values

---
 src/csvw/dsv_dialects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index ac6be9c..c862805 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -124,16 +124,16 @@ class Dialect(object):
     def updated(self, **kw):
         return self.__class__(**dict(attr.asdict(self), **kw))
 
-    @functools.cached_property
+    @property
     def escape_character(self):
         return None if self.quoteChar is None else ('"' if self.doubleQuote else '\\')
 
-    @functools.cached_property
+    @property
     def line_terminators(self):
         return [self.lineTerminators] \
             if isinstance(self.lineTerminators, str) else self.lineTerminators
 
-    @functools.cached_property
+    @property
     def trimmer(self):
         return {
             'true': lambda s: s.strip(),
-- 
2.43.0


From 1fdb8f76eb09128f2901feb32c2e70afaa1eec8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:14 +0000
Subject: [PATCH 142/147] fix: do not leave outdated data behind when copying
 zipped data

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a04066f..2868c67 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1682,6 +1682,8 @@ class TableGroup(TableLike):
             if not src.exists():  # The data may be zipped, see Table.iterdicts.
                 zipped = src.parent / (src.name + '.zip')
                 if zipped.exists():
+                    if target.exists():  # Outdated data, which would be preferred when reading.
+                        target.unlink()
                     src, target = zipped, target.parent / zipped.name
             target.parent.mkdir(parents=True, exist_ok=True)
             shutil.copy(str(src), str(target))
-- 
2.43.0


From d7c90fe579ec0d1c120315d5a56815c58c10e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:28 +0000
Subject: [PATCH 143/147] fix: find null foreign keys in columns given by title
 or property URL, too

---
 src/csvw/metadata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2868c67..3a653e2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1734,10 +1734,13 @@ class TableGroup(TableLike):
         if strict:
             for t in self.tables:
                 for fk in t.tableSchema.foreignKeys:
+                    # Columns may be referenced by title or property URL, too.
+                    columns = [(t.tableSchema.get_column(c), c) for c in fk.columnReference]
+                    columns = [col.header if col else c for col, c in columns]
                     for row in t:
-                        if any(row.get(col) is None for col in fk.columnReference):
+                        if any(row.get(col) is None for col in columns):
                             raise ValueError('Foreign key column is null: {} {}'.format(
-                                [row.get(col) for col in fk.columnReference], fk.columnReference))
+                                [row.get(col) for col in columns], fk.columnReference))
         try:
             self.validate_schema()
             success = True
-- 
2.43.0


From bf81d0ffb2e66fe9f89055f5c0ecf94ab65204f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:26 +0000
Subject: [PATCH 144/147] fix: report JSON which is nested too deeply as
 invalid value

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3a653e2..bd65ed9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -689,6 +689,8 @@ class Datatype(DescriptionBase):
             return self.basetype.to_python(v, **self.derived_description)
         except OverflowError:
             raise ValueError('value too big for {}: {}'.format(self.base, v))
+        except RecursionError:
+            raise ValueError('value nested too deeply for {}: {}'.format(self.base, v))
 
     def validate(self, v):
         try:
-- 
2.43.0


From 4649c91afd7e5c216b0512da0f3fde32db73c977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:55 +0000
Subject: [PATCH 145/147] fix: dateTime and time values are formatted
 independent of the locale of the environment

---
 src/csvw/datatypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 98d51a5..452877b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -392,7 +392,7 @@ class dateTime(anyAtomicType):
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
             return babel.dates.format_datetime(
-                v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern))
+                v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern), locale='en')
         return v.isoformat()
 
 
@@ -480,7 +480,8 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern))
+        return babel.dates.format_time(
+            v, tzinfo=v.tzinfo, format=exact_pattern(v, pattern), locale='en')
 
 
 @register
-- 
2.43.0


From d71dba583a20fdf057c2809846dd8b8a41b80846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:22 +0000
Subject: [PATCH 146/147] fix: malformed number patterns are reported and
 ignored

---
 src/csvw/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index bd65ed9..8eedb30 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -656,7 +656,10 @@ class Datatype(DescriptionBase):
             raise ValueError('datatype @id MUST NOT be the URL of a built-in datatype.')
 
         if isinstance(self.basetype(), (DATATYPES['decimal'], DATATYPES['float'])):
-            if not set(self.derived_description.get('pattern') or '').issubset(set('#0.,;%‰E-+')):
+            subpattern = r'[+\-%‰]*[#0,]*(\.[#0,]*)?(E[+\-]?[#0,]+)?[+\-%‰]*'
+            if not re.fullmatch(
+                    r'(?=[^;]*[#0]){0}(;{0})?'.format(subpattern),
+                    self.derived_description.get('pattern') or '0'):
                 self.format = None
                 warnings.warn('Invalid number pattern')
 
-- 
2.43.0


From a89e383beb94a8e64c2303fa62324856a54efeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:34 +0000
Subject: [PATCH 147/147] fix: floating point numbers can be read with patterns
 for percent and per mille

---
 src/csvw/datatypes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 452877b..2e3700a 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -935,11 +935,21 @@ class _float(anyAtomicType):
         if isinstance(v, str) and (groupChar or (pattern and ',' in pattern)):
             v = v.replace(',', '')
 
+        shift = 0
+        if isinstance(v, str) and pattern:
+            for c, digits in [('%', 2), ('‰', 3)]:
+                if c in pattern and c in v:
+                    v, shift = v.replace(c, '', 1), digits
+                    break
+
         # Python recognizes more, e.g. "1_000", non-ASCII digits or "infinity".
         if isinstance(v, str) and not re.fullmatch(
                 r'[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?INF|NaN', v.strip()):
             _float.value_error(v)
         try:
+            if shift:
+                mantissa, _, exponent = v.strip().lower().partition('e')
+                return float('{}e{}'.format(mantissa, int(exponent or 0) - shift))
             return float(v)
         except (TypeError, ValueError):
             _float.value_error(v)
-- 
2.43.0

