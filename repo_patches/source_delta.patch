From 89a06a98c3c5fae23a9d2c843b1ec315ff84d084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 01/72] fix: write years before 1000 with four digits in dates
 and datetimes

---
 scheme/fields/date.py     | 15 ++++++++-------
 scheme/fields/datetime.py | 15 ++++++++-------
 scheme/formats/yaml.py    |  6 +++---
 scheme/util.py            |  6 ++++++
 4 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 3909571..93d178c 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -5,6 +5,7 @@ from time import strptime
 
 from scheme.exceptions import *
 from scheme.field import *
+from scheme.util import strftime
 
 __all__ = ('Date',)
 
@@ -48,22 +49,22 @@ class Date(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % strftime(self.minimum, self.pattern))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % strftime(self.maximum, self.pattern))
         return super(Date, self).__repr__(aspects)
 
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = strftime(self.maximum, self.pattern)
         if self.minimum is not None:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = strftime(self.minimum, self.pattern)
 
         return super(Date, self).describe(parameters, verbose, **params)
 
     def _serialize_value(self, value):
-        return value.strftime(self.pattern)
+        return strftime(value, self.pattern)
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, date):
@@ -81,9 +82,9 @@ class Date(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=strftime(minimum, self.pattern))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=strftime(maximum, self.pattern))
diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 7a4dd34..eed500c 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -6,6 +6,7 @@ from time import strptime
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.timezone import *
+from scheme.util import strftime
 
 __all__ = ('DateTime',)
 
@@ -51,9 +52,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % self.minimum.strftime(self.pattern))
+            aspects.append('minimum=%r' % strftime(self.minimum, self.pattern))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % self.maximum.strftime(self.pattern))
+            aspects.append('maximum=%r' % strftime(self.maximum, self.pattern))
         if self.utc:
             aspects.append('utc=True')
 
@@ -62,9 +63,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum:
-            params['maximum'] = self.maximum.strftime(self.pattern)
+            params['maximum'] = strftime(self.maximum, self.pattern)
         if self.minimum:
-            params['minimum'] = self.minimum.strftime(self.pattern)
+            params['minimum'] = strftime(self.minimum, self.pattern)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -81,7 +82,7 @@ class DateTime(Field):
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
-        return value.strftime(self.pattern)
+        return strftime(value, self.pattern)
 
     def _unserialize_value(self, value, ancestry=None):
         if isinstance(value, datetime):
@@ -102,11 +103,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=minimum.strftime(self.pattern))
+                'minimum', minimum=strftime(minimum, self.pattern))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=maximum.strftime(self.pattern))
+                'maximum', maximum=strftime(maximum, self.pattern))
 
         return value
diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index f662160..6040c65 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -16,7 +16,7 @@ except ImportError:
     yaml = None
 
 from scheme.format import *
-from scheme.util import string
+from scheme.util import strftime, string
 
 __all__ = ('Yaml',)
 
@@ -177,9 +177,9 @@ class Yaml(Format):
             else:
                 return 'false'
         elif isinstance(value, datetime):
-            return value.strftime('%Y-%m-%d %H:%M:%S')
+            return strftime(value, '%Y-%m-%d %H:%M:%S')
         elif isinstance(value, date):
-            return value.strftime('%Y-%m-%d')
+            return strftime(value, '%Y-%m-%d')
         elif isinstance(value, (float, int)):
             return str(value)
         else:
diff --git a/scheme/util.py b/scheme/util.py
index 207c1e3..221e76b 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -249,6 +249,12 @@ def set_nested_value(subject, path, value):
 
     subject[last] = value
 
+def strftime(value, pattern):
+    """Formats ``value`` according to ``pattern``, with the year always as four digits, which the
+    platform's strftime() doesn't ensure for years before 1000."""
+
+    return value.strftime(pattern.replace('%Y', '%04d' % value.year))
+
 def traverse_to_key(value, path):
     for key in path.split('.'):
         if isinstance(value, dict):
-- 
2.43.0


From 78e203808c7021c14bc498f1936625b117281299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 02/72] fix: refuse NaN in float and decimal fields that have
 limits

---
 scheme/fields/decimal.py | 4 ++--
 scheme/fields/float.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index d9ef58d..dd4b2b7 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -89,11 +89,11 @@ class Decimal(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and (value.is_nan() or value < minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and (value.is_nan() or value > maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index 2d7d075..738f359 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -54,11 +54,11 @@ class Float(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and (value != value or value < minimum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=minimum)
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and (value != value or value > maximum):
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=maximum)
-- 
2.43.0


From 223b00aba7a2db14acdb94c0689ea78fb3343642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 03/72] fix: refuse a trailing newline in UUIDs, tokens and
 email addresses

---
 scheme/fields/email.py | 6 +++---
 scheme/fields/token.py | 2 +-
 scheme/fields/uuid.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/email.py b/scheme/fields/email.py
index 0fc5c53..7f9c368 100644
--- a/scheme/fields/email.py
+++ b/scheme/fields/email.py
@@ -12,10 +12,10 @@ EMAIL_EXPR = (
     r'|"([\001-\010\013\014\016-\037!#-\[\]-\177]|\\[\001-\011\013\014\016-\177])*"'
     r')@([a-zA-Z0-9-]+\.)+[a-zA-Z]{2,6}')
 
-EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?$' % EMAIL_EXPR)
-EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?$'
+EMAIL_ADDRESS_EXPR = re.compile(r'^(%s)?\Z' % EMAIL_EXPR)
+EXTENDED_EMAIL_ADDRESS_EXPR = re.compile(r'^(("[^"]+"[ ]+<%s>)|([^<]+[ ]+<%s>)|(%s))?\Z'
     % (EMAIL_EXPR, EMAIL_EXPR, EMAIL_EXPR))
-EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?$' % (EMAIL_EXPR, EMAIL_EXPR))
+EMAIL_LIST_EXPR = re.compile(r'^(%s(,%s)*)?\Z' % (EMAIL_EXPR, EMAIL_EXPR))
 
 SEPARATOR_EXPR = re.compile(r'[\s,;:]+')
 SEPARATORS = whitespace + ',;:'
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index 7ac89a3..ff9c97c 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,7 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
-    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*$')
+    pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a valid token')
diff --git a/scheme/fields/uuid.py b/scheme/fields/uuid.py
index 57f3713..fd6feaf 100644
--- a/scheme/fields/uuid.py
+++ b/scheme/fields/uuid.py
@@ -11,7 +11,7 @@ class UUID(Field):
     """A field for UUID values."""
 
     basetype = 'text'
-    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}$')
+    pattern = re.compile(r'^[a-f0-9]{8}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{4}-[a-f0-9]{12}\Z')
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a UUID')
-- 
2.43.0


From adfd7fe2ab08f5f73c433f9299fd878ede80b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 04/72] fix: refuse wire values that integer, float and decimal
 fields cannot represent

---
 scheme/fields/decimal.py |  2 ++
 scheme/fields/float.py   |  3 +++
 scheme/fields/integer.py | 11 ++++++++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index dd4b2b7..b00a3b1 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -78,6 +78,8 @@ class Decimal(Field):
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, decimal):
             return value
+        elif isinstance(value, (bool, list, tuple)):
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
             return decimal(value)
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index 738f359..b73f226 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -44,6 +44,9 @@ class Float(Field):
             return float(interpolate_parameters(subject, parameters, True, interpolator))
 
     def _unserialize_value(self, value, ancestry):
+        if value is True or value is False:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+
         try:
             return float(value)
         except Exception:
diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index bbbdf08..94bb16c 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -1,7 +1,7 @@
 from scheme.exceptions import *
 from scheme.field import *
 from scheme.interpolation import interpolate_parameters
-from scheme.util import integers, numbers
+from scheme.util import integers, numbers, string
 
 __all__ = ('Integer',)
 
@@ -45,13 +45,18 @@ class Integer(Field):
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-            raise InvalidTypeError(identity=ancestry, field=self, valid=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         try:
-            return int(value)
+            candidate = int(value)
         except Exception:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        if not isinstance(value, string) and candidate != value:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+
+        return candidate
+
     def _validate_value(self, value, ancestry):
         if value is True or value is False or not isinstance(value, integers):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
-- 
2.43.0


From a1510a5c5905ebb1f688b1091df5495286a59fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 05/72] fix: report malformed base64 in binary fields as an
 invalid value

---
 scheme/fields/binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/binary.py b/scheme/fields/binary.py
index 2824acc..3d88680 100644
--- a/scheme/fields/binary.py
+++ b/scheme/fields/binary.py
@@ -48,7 +48,10 @@ class Binary(Field):
         if not isinstance(value, bytes):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        return urlsafe_b64decode(value)
+        try:
+            return urlsafe_b64decode(value)
+        except ValueError:
+            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, bytes):
-- 
2.43.0


From 987c089808f3505d87c46688a604510b7f95248f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 06/72] fix: compare unhashable items in unique sequences

---
 scheme/fields/sequence.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index eca6c5f..92f9d32 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -203,7 +203,7 @@ class Sequence(Field):
 
         if not valid:
             raise ValidationError(identity=ancestry, field=self, value=value, structure=sequence)
-        elif self.unique and len(set(sequence)) != len(sequence):
+        elif self.unique and self._has_duplicates(sequence):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('duplicate')
         else:
             return sequence
@@ -224,6 +224,12 @@ class Sequence(Field):
     def _define_undefined_field(self, field):
         self.item = field
 
+    def _has_duplicates(self, sequence):
+        try:
+            return len(set(sequence)) != len(sequence)
+        except TypeError:
+            return any(item in sequence[:i] for i, item in enumerate(sequence))
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'item': callback(specification['item'])}
-- 
2.43.0


From 0bfac8358c82337687fe6f0a424cdd519e28db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 07/72] fix: compare datetimes and aware times with the limits
 of date and time fields

---
 scheme/fields/date.py | 10 +++++++---
 scheme/fields/time.py |  6 ++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 93d178c..4235b52 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -1,6 +1,6 @@
 from __future__ import absolute_import
 
-from datetime import date
+from datetime import date, datetime
 from time import strptime
 
 from scheme.exceptions import *
@@ -79,12 +79,16 @@ class Date(Field):
         if not isinstance(value, date):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        candidate = value
+        if isinstance(candidate, datetime):
+            candidate = candidate.date()
+
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and candidate < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'minimum', minimum=strftime(minimum, self.pattern))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and candidate > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'maximum', maximum=strftime(maximum, self.pattern))
diff --git a/scheme/fields/time.py b/scheme/fields/time.py
index fe6e0bb..4e8ad9b 100644
--- a/scheme/fields/time.py
+++ b/scheme/fields/time.py
@@ -76,12 +76,14 @@ class Time(Field):
             raise InvalidTypeError(identity=ancestry, field=self,
                 value=value).construct('invalid')
 
+        candidate = value.replace(tzinfo=None)
+
         minimum = self.minimum
-        if minimum is not None and value < minimum:
+        if minimum is not None and candidate < minimum.replace(tzinfo=None):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('minimum',
                 minimum=minimum.strftime(self.pattern))
 
         maximum = self.maximum
-        if maximum is not None and value > maximum:
+        if maximum is not None and candidate > maximum.replace(tzinfo=None):
             raise ValidationError(identity=ancestry, field=self, value=value).construct('maximum',
                 maximum=maximum.strftime(self.pattern))
-- 
2.43.0


From bc41d546c14939ec60b6b9b43d9ee09b49bc8f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 08/72] fix: report datetimes that overflow in the field's zone
 as a validation error

---
 scheme/fields/datetime.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index eed500c..25ac028 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -95,11 +95,14 @@ class DateTime(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
-        if isinstance(value, datetime):
-            value = self._normalize_value(value)
-        else:
+        if not isinstance(value, datetime):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
+        try:
+            value = self._normalize_value(value)
+        except (OverflowError, ValueError):
+            raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
+
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-- 
2.43.0


From fccf6390a3da4134b1173cdd743d737f3a439fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 09/72] fix: report constant and preprocessor failures of
 enumerations instead of raising KeyError

---
 scheme/field.py              | 10 ++++++++--
 scheme/fields/enumeration.py |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scheme/field.py b/scheme/field.py
index 8da185d..908939c 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -457,10 +457,11 @@ class Field(object):
                 value = self.preprocessor(value)
             except Exception:
                 raise InvalidTypeError(identity=ancestry, field=self,
-                    value=value).construct('invalid').capture()
+                    value=value).construct('invalid', **self._get_invalid_params()).capture()
 
         if self.constant is not None and value != self.constant:
-            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+            raise InvalidTypeError(identity=ancestry, field=self,
+                value=value).construct('invalid', **self._get_invalid_params())
 
         candidate = self._validate_value(value, ancestry)
         if candidate is not None:
@@ -571,6 +572,11 @@ class Field(object):
         else:
             raise CannotDescribeError(parameter)
 
+    def _get_invalid_params(self):
+        """Returns the parameters which the ``invalid`` error of this field needs for its message."""
+
+        return {}
+
     def _is_null(self, value, ancestry):
         if value is None:
             if self.nonnull:
diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 96f5e85..d9abb9e 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -66,6 +66,9 @@ class Enumeration(Field):
         self.enumeration = list(set(baseline + enumeration))
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
+    def _get_invalid_params(self):
+        return {'values': self.representation}
+
     def _is_null(self, value, ancestry):
         ignored_values = self.ignored_values
         if ignored_values and value in ignored_values:
@@ -76,4 +79,4 @@ class Enumeration(Field):
     def _validate_value(self, value, ancestry):
         if value not in self.enumeration:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid',
-                values=self.representation)
+                **self._get_invalid_params())
-- 
2.43.0


From 597b7a479231e0aa007379bf896020da1986be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 10/72] fix: apply native defaults of binary fields to
 serialized data without decoding them

---
 scheme/fields/structure.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index b6d7532..4eeae27 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -406,6 +406,7 @@ class Structure(Field):
 
         for name in key_order:
             field = definition[name]
+            defaulted = False
             if name in names:
                 names.remove(name)
                 field_value = value[name]
@@ -413,6 +414,7 @@ class Structure(Field):
                 continue
             elif phase == INBOUND and field.default is not None:
                 field_value = field.default
+                defaulted = True
             elif field.required:
                 valid = False
                 structure[name] = ValidationError(identity=ancestry, field=self).construct(
@@ -423,8 +425,8 @@ class Structure(Field):
 
             try:
                 if not (field.ignore_null and field_value is None):
-                   structure[name] = field.process(field_value, phase, serialized,
-                        ancestry + ['.' + name])
+                   structure[name] = self._process_field(field, field_value, phase,
+                        serialized, ancestry + ['.' + name], defaulted)
                 else:
                     continue
             except StructuralError as exception:
@@ -572,6 +574,17 @@ class Structure(Field):
             if not field.name:
                 field.name = name
 
+    def _process_field(self, field, value, phase, serialized, ancestry, defaulted):
+        # default values are specified in native form, but those of a field reconstructed from
+        # its description are in serialized form
+        if defaulted and serialized:
+            try:
+                return field.process(value, phase, False, ancestry)
+            except StructuralError:
+                pass
+
+        return field.process(value, phase, serialized, ancestry)
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From 60c71bfaa59b761e03e840608409b958035f5368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:48 +0000
Subject: [PATCH 11/72] fix: apply key orders and falsy identities to
 polymorphic structures

---
 scheme/fields/structure.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 4eeae27..5ad1464 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -396,8 +396,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if identity:
-                key_order = self.key_order[identity]
+            if polymorphic_on:
+                key_order = [name for name in self.key_order if name in definition]
             else:
                 key_order = self.key_order
         else:
@@ -545,9 +545,8 @@ class Structure(Field):
         return default
 
     def _get_definition(self, value, getter=getitem):
-        identity = self._get_polymorphic_identity(value, getter)
-        if identity:
-            return self.structure[identity]
+        if self.polymorphic_on:
+            return self.structure[self._get_polymorphic_identity(value, getter)]
         else:
             return self.structure
 
-- 
2.43.0


From a49d682db3d9c30657fb1dd2601d0dfd963824dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:27 +0000
Subject: [PATCH 12/72] fix: unserialize structural errors with their nested
 structure

---
 scheme/exceptions.py   | 29 +++++++++++++++++++++++++++--
 scheme/fields/error.py | 14 +++++++++-----
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 026b1dd..852806c 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -1,6 +1,6 @@
 from traceback import format_exc
 
-from scheme.util import format_structure, indent
+from scheme.util import format_structure, indent, string
 
 __all__ = ('CannotDescribeError', 'CannotExtractError', 'CannotFilterError',
     'CannotInterpolateError', 'FieldExcludedError', 'InvalidTypeError', 'StructuralError',
@@ -128,7 +128,7 @@ class StructuralError(SchemeError):
     @classmethod
     def unserialize(cls, value):
         errors, structure = value
-        return cls(*errors, **{'structure': structure})
+        return cls(*(errors or ()), **{'structure': cls._unserialize_structure(structure)})
 
     def _format_errors(self, errors):
         field = self.field
@@ -200,6 +200,31 @@ class StructuralError(SchemeError):
             else:
                 return errors
 
+    @classmethod
+    def _is_serialized_error(cls, value):
+        return isinstance(value, dict) and (isinstance(value.get('token'), string)
+            or isinstance(value.get('message'), string))
+
+    @classmethod
+    def _unserialize_item(cls, value):
+        if value is None:
+            return None
+        elif isinstance(value, (list, tuple)) and all(cls._is_serialized_error(v) for v in value):
+            return cls(*value)
+        else:
+            return cls(structure=cls._unserialize_structure(value))
+
+    @classmethod
+    def _unserialize_structure(cls, structure):
+        if structure is None:
+            return None
+        elif isinstance(structure, dict):
+            return dict((attr, cls._unserialize_item(value)) for attr, value in structure.items())
+        elif isinstance(structure, (list, tuple)):
+            return [cls._unserialize_item(value) for value in structure]
+        else:
+            raise ValueError(structure)
+
 class ValidationError(StructuralError):
     """Raised when field validation fails."""
 
diff --git a/scheme/fields/error.py b/scheme/fields/error.py
index 31787b9..95e4fe8 100644
--- a/scheme/fields/error.py
+++ b/scheme/fields/error.py
@@ -18,11 +18,15 @@ class Error(Field):
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, StructuralError):
             return value
-        elif isinstance(value, tuple) and len(value) == 2:
-            return StructuralError.unserialize(value)
-        else:
-            raise InvalidTypeError(identity=ancestry, field=self,
-                value=value).construct('invalid')
+
+        try:
+            if isinstance(value, (list, tuple)):
+                return StructuralError.unserialize(value)
+        except Exception:
+            pass
+
+        raise InvalidTypeError(identity=ancestry, field=self,
+            value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, StructuralError):
-- 
2.43.0


From 7dfa3642b439eebe0859adbbb6fab875b1fe2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 13/72] fix: validate tuple keys of maps instead of raising
 TypeError

---
 scheme/fields/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 263af53..64a42ee 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -196,14 +196,14 @@ class Map(Field):
         for name, subvalue in value.items():
             if key_field:
                 try:
-                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % name])
+                    name = key_field.process(name, phase, serialized, ancestry + ['[%s]' % (name,)])
                 except StructuralError as exception:
                     raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
             elif not isinstance(name, string):
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('invalidkeys')
 
             try:
-                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % name])
+                map[name] = value_field.process(subvalue, phase, serialized, ancestry + ['[%s]' % (name,)])
             except StructuralError as exception:
                 valid = False
                 map[name] = exception
-- 
2.43.0


From 654c45a88aebbeab599d0043d6ab6f971ad06a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:29 +0000
Subject: [PATCH 14/72] fix: report failing preprocessors of maps, sequences
 and tuples as invalid values

---
 scheme/fields/map.py      | 6 +++++-
 scheme/fields/sequence.py | 6 +++++-
 scheme/fields/tuple.py    | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 64a42ee..bc41360 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -186,7 +186,11 @@ class Map(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         valid = True
         key_field = self.key
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 92f9d32..adc4628 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -173,7 +173,11 @@ class Sequence(Field):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         min_length = self.min_length
         if min_length is not None and len(value) < min_length:
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 48d2a90..f383fc5 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -169,7 +169,11 @@ class Tuple(Field):
         if not isinstance(value, (list, tuple)):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
         if self.preprocessor:
-            value = self.preprocessor(value)
+            try:
+                value = self.preprocessor(value)
+            except Exception:
+                raise InvalidTypeError(identity=ancestry, field=self,
+                    value=value).construct('invalid').capture()
 
         values = self.values
         if len(value) != len(values):
-- 
2.43.0


From ed2f1d6ece2db72b7892b4306e4c9e25539bc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:21 +0000
Subject: [PATCH 15/72] fix: render structural errors whose value is a tuple

---
 scheme/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/exceptions.py b/scheme/exceptions.py
index 852806c..11b8ea2 100644
--- a/scheme/exceptions.py
+++ b/scheme/exceptions.py
@@ -144,7 +144,7 @@ class StructuralError(SchemeError):
             if definition.show_field:
                 lines.append('Field: %r' % field)
             if definition.show_value and self.value is not None:
-                lines.append('Value: %r' % self.value)
+                lines.append('Value: %r' % (self.value,))
 
             if self.tracebacks:
                 lines.append('Captured tracebacks:')
-- 
2.43.0


From 0642735f7c1e6f007392a771604faf9ce68a2b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 16/72] fix: refuse decimals too large to compare as integers
 instead of raising ValueError

---
 scheme/fields/integer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index 94bb16c..ee574df 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -49,10 +49,11 @@ class Integer(Field):
 
         try:
             candidate = int(value)
+            valid = isinstance(value, string) or candidate == value
         except Exception:
-            raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
+            valid = False
 
-        if not isinstance(value, string) and candidate != value:
+        if not valid:
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
         return candidate
-- 
2.43.0


From aea3f2eb62be17efa882c3bbb0c9d9c5d1cd96d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 17/72] fix: refuse unhashable polymorphic identities as
 unrecognized

---
 scheme/fields/structure.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 5ad1464..d2b9b54 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -389,7 +389,10 @@ class Structure(Field):
             identity = polymorphic_on.process(identity, phase, serialized,
                 ancestry + ['.' + polymorphic_on.name])
 
-            definition = self.structure.get(identity)
+            try:
+                definition = self.structure.get(identity)
+            except TypeError:
+                definition = None
             if not definition:
                 raise ValidationError(identity=ancestry, field=self,
                     value=identity).construct('unrecognized')
-- 
2.43.0


From 8cf0ffd79d7a0994a12488359c1821072385f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 18/72] fix: keep placeholders when cloning fields, so that a
 structure can contain itself

---
 scheme/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 908939c..1da4b46 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -631,6 +631,9 @@ class Undefined(object):
         self.callbacks = []
         self.field = field
 
+    def __deepcopy__(self, memo):
+        return self
+
     def define(self, field):
         self.field = field
         for callback, args in self.callbacks:
-- 
2.43.0


From 0a59776a6a0b5fe51b682b2ec37a57d9b38e8e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 19/72] fix: report an undefined member of a structure when the
 value lacks it

---
 scheme/fields/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d2b9b54..78e93d8 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -415,6 +415,8 @@ class Structure(Field):
                 field_value = value[name]
             elif partial:
                 continue
+            elif isinstance(field, Undefined):
+                raise UndefinedFieldError("the %r field of this structure is undefined" % name)
             elif phase == INBOUND and field.default is not None:
                 field_value = field.default
                 defaulted = True
-- 
2.43.0


From 181fae7aabd9d05cad195350ee4162b63d1cd5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 20/72] fix: interpolate unions instead of raising NameError

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 8de3215..95daec9 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -84,7 +84,7 @@ class Union(Field):
 
         for field in self.fields:
             try:
-                return field.interpolate(subject, parameters, interpolater)
+                return field.interpolate(subject, parameters, interpolator)
             except CannotInterpolateError:
                 pass
             except AttributeError:
-- 
2.43.0


From 8fc95b26a6836a2ca8a6e016a95959db71296bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 21/72] fix: merge the members after one that a structure
 already has

---
 scheme/fields/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 78e93d8..971ae8f 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -351,7 +351,7 @@ class Structure(Field):
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
             if name in self.structure and not prefer:
-                return
+                continue
             if field.name != name:
                 field = field.clone(name=name)
             self.structure[name] = field
-- 
2.43.0


From 7bdab50c9039cf1a5b345dce421c2f60e8581465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:33 +0000
Subject: [PATCH 22/72] fix: extend and replace under another name without
 renaming the given field

---
 scheme/fields/structure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 971ae8f..7eb14cb 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -175,8 +175,10 @@ class Structure(Field):
         for name, field in structure.items():
             if not isinstance(field, Field):
                 raise TypeError("values of argument 'structure' must be Field instances")
-            if field.name != name:
+            if not field.name:
                 field.name = name
+            elif field.name != name:
+                field = field.clone(name=name)
             extension.structure[name] = field
 
         return extension
@@ -478,8 +480,10 @@ class Structure(Field):
         for name, field in structure.items():
             if not isinstance(field, Field):
                 raise TypeError(field)
-            if field.name != name:
+            if not field.name:
                 field.name = name
+            elif field.name != name:
+                field = field.clone(name=name)
             if name in replacement.structure:
                 replacement.structure[name] = field
 
-- 
2.43.0


From 94b2c8c8f6392478b9e98d5ea16f674e5854c664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 23/72] fix: apply key orders of edited structures to the
 members they have

---
 scheme/fields/structure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 7eb14cb..3d2b7ee 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -401,10 +401,8 @@ class Structure(Field):
 
         if self.key_order:
             structure = OrderedDict()
-            if polymorphic_on:
-                key_order = [name for name in self.key_order if name in definition]
-            else:
-                key_order = self.key_order
+            key_order = [name for name in self.key_order if name in definition]
+            key_order.extend(name for name in definition if name not in self.key_order)
         else:
             structure = {}
             key_order = definition.keys()
-- 
2.43.0


From afbd325efcd1d906383376aeb85b64d75caa0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 24/72] fix: redefine enumerations in order, whatever their
 values and type

---
 scheme/fields/enumeration.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index d9abb9e..ace3139 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -63,7 +63,12 @@ class Enumeration(Field):
         else:
             raise ValueError("argument 'strategy' must be either 'append' or 'replace'")
 
-        self.enumeration = list(set(baseline + enumeration))
+        candidates = list(baseline)
+        for value in enumeration:
+            if value not in candidates:
+                candidates.append(value)
+
+        self.enumeration = candidates
         self.representation = ', '.join([repr(value) for value in self.enumeration])
 
     def _get_invalid_params(self):
-- 
2.43.0


From b868e33a3052a3c2a27be665df0d2005fb6cb273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 25/72] fix: transform polymorphic structures instead of
 raising AttributeError

---
 scheme/fields/structure.py | 39 +++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 3d2b7ee..f4c1a2b 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -494,19 +494,19 @@ class Structure(Field):
         elif candidate is False:
             return self
 
-        transformed = False
-        candidates = {}
-
-        for name, field in self.structure.items():
-            candidate = field.transform(transformer)
-            if candidate is not field:
-                candidates[name] = candidate
-                transformed = True
-            else:
-                candidates[name] = field
+        if self.polymorphic_on:
+            transformed = False
+            structure = {}
+            for identity, substructure in self.structure.items():
+                structure[identity] = self._transform_structure(substructure, transformer)
+                if structure[identity] is not substructure:
+                    transformed = True
+        else:
+            structure = self._transform_structure(self.structure, transformer)
+            transformed = (structure is not self.structure)
 
         if transformed:
-            return self.clone(structure=candidates)
+            return self.clone(structure=structure)
         else:
             return self
 
@@ -591,6 +591,23 @@ class Structure(Field):
 
         return field.process(value, phase, serialized, ancestry)
 
+    def _transform_structure(self, structure, transformer):
+        transformed = False
+        candidates = {}
+
+        for name, field in structure.items():
+            if self.polymorphic_on and name == self.polymorphic_on.name:
+                candidates[name] = field
+                continue
+            candidates[name] = field.transform(transformer)
+            if candidates[name] is not field:
+                transformed = True
+
+        if transformed:
+            return candidates
+        else:
+            return structure
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
-- 
2.43.0


From 02e968aaa00baae8146027c1d0a798d122f11be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:25 +0000
Subject: [PATCH 26/72] fix: filter nested fields by every criterion when asked
 to, and drop all excluded members

---
 scheme/fields/map.py       | 2 +-
 scheme/fields/structure.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index bc41360..d4f2b79 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -123,7 +123,7 @@ class Map(Field):
         if not super(Map, self).filter(all, **params):
             return None
 
-        value = self.value.filter(self.value, **params)
+        value = self.value.filter(all, **params)
         if value is self.value:
             return self
         elif value:
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index f4c1a2b..881ebfa 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -235,14 +235,14 @@ class Structure(Field):
             structure = {}
             for identity, substructure in self.structure.items():
                 candidate = self._filter_structure(substructure, all, params)
-                if candidate:
+                if candidate is not None:
                     structure[identity] = candidate
                     filtered = True
                 else:
-                    structure[identity] = substructure
+                    structure[identity] = dict(substructure)
         else:
             structure = self._filter_structure(self.structure, all, params)
-            if structure:
+            if structure is not None:
                 filtered = True
 
         if filtered:
@@ -524,7 +524,7 @@ class Structure(Field):
 
         return description
 
-    def _filter_structure(self, structure, exclusive, params):
+    def _filter_structure(self, structure, all, params):
         filtered = False
         candidates = {}
 
-- 
2.43.0


From 16b65fc672c60ed768ae863f94e97c5d9f216d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 27/72] fix: abbreviate texts instead of raising TypeError or
 IndexError

---
 scheme/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/util.py b/scheme/util.py
index 221e76b..960ca46 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -25,14 +25,14 @@ def abbreviate_string(value, maxlength=0):
     if len(value) <= maxlength:
         return value
 
-    half = (maxlength - 3) / 2
+    half = (maxlength - 3) // 2
 
     left = value[:half]
-    while not left[-1].isalnum():
+    while left and not left[-1].isalnum():
         left = left[:-1]
 
-    right = value[-half:]
-    while not right[0].isalnum():
+    right = value[len(value) - half:]
+    while right and not right[0].isalnum():
         right = right[1:]
 
     return '%s...%s' % (left, right)
-- 
2.43.0


From 919a8193146481d2f4a7955ed534fc4ff372b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 28/72] fix: name zones with negative or fractional-hour
 offsets correctly

---
 scheme/timezone.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scheme/timezone.py b/scheme/timezone.py
index 000e173..1701364 100644
--- a/scheme/timezone.py
+++ b/scheme/timezone.py
@@ -35,14 +35,14 @@ class FixedOffsetTimezone(tzinfo):
         if self.name is not None:
             return self.name
 
-        seconds = self.offset.seconds + (self.offset.days * 86400)
-        hours, seconds = divmod(seconds, 3600)
+        minutes = (self.offset.seconds + (self.offset.days * 86400)) // 60
+        sign = '-' if minutes < 0 else '+'
 
-        minutes = seconds / 60
+        hours, minutes = divmod(abs(minutes), 60)
         if minutes:
-            return '%+03d:%d' % (hours, minutes)
+            return '%s%02d:%02d' % (sign, hours, minutes)
         else:
-            return '%+03d' % hours
+            return '%s%02d' % (sign, hours)
 
     def utcoffset(self, value=None):
         return self.offset
-- 
2.43.0


From 4a07b2a5139b23b17b56f0df4611f7515c6ffca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 29/72] fix: give each element its own copies of default values

---
 scheme/element.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheme/element.py b/scheme/element.py
index a1e110d..15a8893 100644
--- a/scheme/element.py
+++ b/scheme/element.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from scheme.fields import *
 from scheme.util import with_metaclass
 
@@ -77,7 +79,7 @@ class Element(object):
             defaults = self.__attrs__
 
         for attr, default in defaults.items():
-            setattr(self, attr, params.get(attr, default))
+            setattr(self, attr, params[attr] if attr in params else deepcopy(default))
 
     def __repr__(self):
         aspects = []
-- 
2.43.0


From 57331c7712d960070422413cd598c57bdddb53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:37 +0000
Subject: [PATCH 30/72] fix: refuse to extract tuples from shorter values
 instead of raising IndexError

---
 scheme/fields/tuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index f383fc5..9268313 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -80,6 +80,8 @@ class Tuple(Field):
 
         if not isinstance(subject, (list, tuple)):
             raise CannotExtractError('extraction candidate must be a list or tuple value')
+        if len(subject) < len(self.values):
+            raise CannotExtractError('extraction candidate must have a value for each field')
 
         extraction = []
         for i, definition in enumerate(self.values):
-- 
2.43.0


From 3ee71bba18cf4ffc707954bbe7f0a9be9330909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:20 +0000
Subject: [PATCH 31/72] fix: leave specifications unchanged when reconstructing
 fields from them

---
 scheme/field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheme/field.py b/scheme/field.py
index 1da4b46..d28c323 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -67,6 +67,7 @@ class FieldMeta(type):
             fieldtype, specification = specification, params
         else:
             try:
+                specification = specification.copy()
                 fieldtype = specification.pop('fieldtype')
             except Exception:
                 raise ValueError("argument 'specification' must be a dict value properly"
-- 
2.43.0


From e6b259564b97c68b9e75d0acc99094cbf6b0731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 32/72] fix: describe the limits of datetime fields in UTC,
 whatever their zone

---
 scheme/fields/datetime.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index 25ac028..d95b086 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -62,10 +62,10 @@ class DateTime(Field):
 
     def describe(self, parameters=None, verbose=False):
         params = {}
-        if self.maximum:
-            params['maximum'] = strftime(self.maximum, self.pattern)
-        if self.minimum:
-            params['minimum'] = strftime(self.minimum, self.pattern)
+        if self.maximum is not None:
+            params['maximum'] = self._serialize_value(self.maximum)
+        if self.minimum is not None:
+            params['minimum'] = self._serialize_value(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
-- 
2.43.0


From 90b9744f59b7abca16bd7edaa48a9d7f991875f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 33/72] fix: describe key orders, ignored values and token
 segments

---
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/structure.py   | 2 +-
 scheme/fields/token.py       | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index ace3139..9275d2b 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -9,7 +9,7 @@ class Enumeration(Field):
     """A field for enumerated values."""
 
     basetype = 'enumeration'
-    parameters = {'enumeration': None}
+    parameters = {'enumeration': None, 'ignored_values': None}
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be one of %(values)s')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 881ebfa..ae63a8a 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -50,7 +50,7 @@ class Structure(Field):
     """
 
     basetype = 'structure'
-    parameters = {'strict': True}
+    parameters = {'key_order': None, 'strict': True}
     structural = True
 
     errors = [
diff --git a/scheme/fields/token.py b/scheme/fields/token.py
index ff9c97c..d13d745 100644
--- a/scheme/fields/token.py
+++ b/scheme/fields/token.py
@@ -11,6 +11,7 @@ class Token(Field):
     """A field for token values."""
 
     basetype = 'token'
+    parameters = {'segments': None}
     pattern = re.compile(r'^\w[-+.\w]*(?<=\w)(?::\w[-+.\w]*(?<=\w))*\Z')
 
     errors = [
-- 
2.43.0


From 325e9ed2b79c7f38ad80ea97e9dfc25f4a6856ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 34/72] fix: describe empty defaults, and those with converted
 keys or nested values

---
 scheme/fields/map.py       | 4 +++-
 scheme/fields/sequence.py  | 2 +-
 scheme/fields/structure.py | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index d4f2b79..d82b555 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -76,9 +76,11 @@ class Map(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for key, value in self.default.items():
+                if self.key:
+                    key = self.key.process(key, OUTBOUND, True)
                 default[key] = self.value.process(value, OUTBOUND, True)
 
         params = {'value': self.value.describe(parameters, verbose), 'default': default}
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index adc4628..8992908 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -72,7 +72,7 @@ class Sequence(Field):
 
     def describe(self, parameters=None, verbose=False):
         default = None
-        if self.default:
+        if self.default is not None:
             default = [self.item.process(value, OUTBOUND, True) for value in self.default]
 
         return super(Sequence, self).describe(parameters, verbose,
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index ae63a8a..d3bfdde 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -146,7 +146,7 @@ class Structure(Field):
         
         polymorphic_on = self.polymorphic_on
         if polymorphic_on:
-            if self.default:
+            if self.default is not None:
                 default_structure = self.structure[self.default[polymorphic_on.name]]
 
             structure = {}
@@ -159,10 +159,10 @@ class Structure(Field):
             structure = self._describe_structure(self.structure, parameters, verbose)
 
         default = None
-        if self.default:
+        if self.default is not None:
             default = {}
             for name, value in self.default.items():
-                default[name] = default_structure[name]._serialize_value(value)
+                default[name] = default_structure[name].process(value, OUTBOUND, True)
 
         return super(Structure, self).describe(parameters, verbose, default=default,
             polymorphic_on=polymorphic_on, structure=structure)
-- 
2.43.0


From a7bbb32d3977f46ce91fcdbbd1da4c04817bbc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:51 +0000
Subject: [PATCH 35/72] fix: reconstruct the defaults of structural fields in
 native form

---
 scheme/field.py            | 16 +++++++++++++++-
 scheme/fields/map.py       |  9 +++++++++
 scheme/fields/sequence.py  |  3 +++
 scheme/fields/structure.py | 11 +++++++++++
 scheme/fields/tuple.py     |  4 ++++
 5 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index d28c323..b02bb67 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -272,7 +272,15 @@ class Field(object):
         a collection of parameters is typically obtained by calling ``.describe()``."""
 
         params = cls._construct_parameter(specification)
-        return cls(**params)
+        field = cls(**params)
+
+        if field.default is not None:
+            try:
+                field.default = field._unserialize_default(field.default)
+            except StructuralError:
+                pass
+
+        return field
 
     def describe(self, parameters=None, verbose=False, **params):
         """Constructs a serializable description of this field, expressed as a ``dict`` containing
@@ -593,6 +601,12 @@ class Field(object):
 
         return value
 
+    def _unserialize_default(self, default):
+        """Converts ``default``, in the form a description of this field has it, to a native value
+        for this field. Only structural fields describe their defaults in serialized form."""
+
+        return default
+
     def _unserialize_value(self, value, ancestry):
         """Converts ``value`` to the proper form for this field, if necessary, and returns it;
         ``value`` should be in the form returned by ``._serialize_value()`, but this is not
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index d82b555..9f47cce 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -247,6 +247,15 @@ class Map(Field):
     def _define_undefined_field(self, field):
         self.value = field
 
+    def _unserialize_default(self, default):
+        native = {}
+        for key, value in default.items():
+            if self.key:
+                key = self.key.process(key, INBOUND, True)
+            native[key] = self.value.process(value, INBOUND, True)
+
+        return native
+
     @classmethod
     def _visit_field(cls, specification, callback):
         params = {'value': callback(specification['value'])}
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 8992908..7d1d145 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -234,6 +234,9 @@ class Sequence(Field):
         except TypeError:
             return any(item in sequence[:i] for i, item in enumerate(sequence))
 
+    def _unserialize_default(self, default):
+        return [self.item.process(value, INBOUND, True) for value in default]
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'item': callback(specification['item'])}
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index d3bfdde..86dbaa2 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -608,6 +608,17 @@ class Structure(Field):
         else:
             return structure
 
+    def _unserialize_default(self, default):
+        definition = self.structure
+        if self.polymorphic_on:
+            definition = definition[default[self.polymorphic_on.name]]
+
+        native = {}
+        for name, value in default.items():
+            native[name] = definition[name].process(value, INBOUND, True)
+
+        return native
+
     @classmethod
     def _visit_field(cls, specification, callback):
         def visit(structure):
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 9268313..5098b63 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -229,6 +229,10 @@ class Tuple(Field):
     def _define_undefined_field(self, field, idx):
         self.values = tuple(list(self.values[:idx]) + [field] + list(self.values[idx + 1:]))
 
+    def _unserialize_default(self, default):
+        return tuple([field.process(value, INBOUND, True)
+            for field, value in zip(self.values, default)])
+
     @classmethod
     def _visit_field(cls, specification, callback):
         return {'values': tuple([callback(field) for field in specification['values']])}
-- 
2.43.0


From 4ccbb1848a6068e8c33c5f6665b511439bfb0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 36/72] fix: clone fields that have errors of their own

---
 scheme/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index b02bb67..5322ba0 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -204,6 +204,9 @@ class Field(object):
             self.preprocessor = preprocessor
 
         if errors:
+            if isinstance(errors, dict):
+                errors = errors.values()
+
             self.errors = self.errors.copy()
             for error in errors:
                 self.errors[error.token] = error
-- 
2.43.0


From 3e3c94a203f30e0aaae4b8044e2ff465c4065c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:10 +0000
Subject: [PATCH 37/72] fix: give clones their own copies of default values

---
 scheme/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index 5322ba0..0c1a038 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -257,7 +257,10 @@ class Field(object):
         a value that cannot be deep-copied are silently ignored."""
 
         if 'default' not in params:
-            params['default'] = self.default
+            try:
+                params['default'] = deepcopy(self.default)
+            except TypeError:
+                params['default'] = self.default
 
         for key, value in self.__dict__.items():
             if key not in params:
-- 
2.43.0


From 1aadad9dac9017cfb262fdfba5261b2c5d859265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 38/72] fix: read back empty structured text instead of raising
 IndexError

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index c015ad9..4499f14 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -23,7 +23,7 @@ class StructuredText(Format):
     def unserialize(cls, value, schema=None, parse_numbers=False):
         if not isinstance(value, string):
             raise ValueError(value)
-        if value[0] in ('{', '['):
+        if value[:1] in ('{', '['):
             return cls._unserialize_structured_value(value, parse_numbers)
         else:
             return cls._unserialize_simple_value(value, parse_numbers)
-- 
2.43.0


From 2490c4b675930212d05a7c875bb6e21a6cc2b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 39/72] fix: restore escaped brackets of structured text when
 parsing numbers

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 4499f14..3711334 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -120,4 +120,4 @@ class StructuredText(Format):
         try:
             return int(value)
         except (TypeError, ValueError):
-            return value
+            return cls.ESCAPED_TOKENS_EXPR.sub(r'\1', value)
-- 
2.43.0


From c7f6d7d280e7aee30fee9ecf70734ce84162c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 40/72] fix: accept the schema that fields pass to the
 form-encoded format

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index eec97cd..dc8f419 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -18,7 +18,7 @@ class UrlEncoded(StructuredText):
     name = 'urlencoded'
 
     @classmethod
-    def serialize(cls, content):
+    def serialize(cls, content, schema=None):
         if not isinstance(content, dict):
             raise ValueError(content)
 
@@ -29,7 +29,7 @@ class UrlEncoded(StructuredText):
         return urlencode(data)
 
     @classmethod
-    def unserialize(cls, content):
+    def unserialize(cls, content, schema=None):
         if not isinstance(content, string):
             raise ValueError(content)
 
-- 
2.43.0


From 0c58a7e7d61348cea1e3e461d66b57d876c1f968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:49 +0000
Subject: [PATCH 41/72] fix: keep empty values when reading form-encoded text

---
 scheme/formats/urlencoded.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/urlencoded.py b/scheme/formats/urlencoded.py
index dc8f419..a010293 100644
--- a/scheme/formats/urlencoded.py
+++ b/scheme/formats/urlencoded.py
@@ -34,8 +34,8 @@ class UrlEncoded(StructuredText):
             raise ValueError(content)
 
         data = {}
-        for name, value in parse_qsl(content):
-            if value[0] in ('{', '['):
+        for name, value in parse_qsl(content, True):
+            if value[:1] in ('{', '['):
                 value = cls._unserialize_structured_value(value)
             else:
                 value = cls._unserialize_simple_value(value)
-- 
2.43.0


From 02a7801d7728bf7c45f0864300b97cbb66710d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 42/72] fix: do not take escaped brackets in structured text
 for structures

---
 scheme/formats/structuredtext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/structuredtext.py b/scheme/formats/structuredtext.py
index 3711334..808b7c6 100644
--- a/scheme/formats/structuredtext.py
+++ b/scheme/formats/structuredtext.py
@@ -10,7 +10,7 @@ class StructuredText(Format):
     name = 'structuredtext'
 
     STRUCTURE_EXPR = re.compile(
-        r'(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
+        r'(?<!\\)(?:\{((\\[\\\[\]\{\}])|[^\\{\[\]])*?\})|(?<!\\)(?:\[((\\[\\\[\]\{\}])|[^\\{}\[])*?\])'
     )
     STRUCTURE_TOKENS_EXPR = re.compile(r'([{}\[\]])')
     ESCAPED_TOKENS_EXPR = re.compile(r'\\([{}\[\]])')
-- 
2.43.0


From 9eeb9584b4cf305f02a6e981d0f3bfdd8d683925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 43/72] fix: do not print the cells of CSV documents when
 reading them

---
 scheme/formats/csv.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index bcfe3e2..3bbe736 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -113,7 +113,6 @@ class Csv(Format):
             for i, column, converter in cells:
                 value = row[i]
                 if value:
-                    print(value)
                     if converter:
                         candidate[column] = converter(value)
                     else:
-- 
2.43.0


From ae5047d7d7efb912c7967ba018041ea5d7fb52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:34 +0000
Subject: [PATCH 44/72] fix: keep line breaks within cells when reading CSV
 documents

---
 scheme/formats/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/csv.py b/scheme/formats/csv.py
index 3bbe736..c31ba98 100644
--- a/scheme/formats/csv.py
+++ b/scheme/formats/csv.py
@@ -89,7 +89,7 @@ class Csv(Format):
         if not isinstance(structure, Structure):
             raise TypeError(structure)
 
-        reader = Reader(value.strip('\r\n').split('\r\n'), cls.Dialect)
+        reader = Reader(StringIO(value.strip('\r\n')), cls.Dialect)
         columns = next(reader)
 
         cells = []
-- 
2.43.0


From 22dd831a1ebc3f25bf3c6d80f0e4578dfde370ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 45/72] fix: quote texts that YAML would read as something
 other than text

---
 scheme/formats/yaml.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 6040c65..7558ef3 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -28,7 +28,9 @@ class Yaml(Format):
     mimetype = 'application/x-yaml'
     name = 'yaml'
     requires_escape = (': ', ' #')
-    requires_quotes = ('null', '~', 'true', 'false')
+    requires_quotes = ('null', '~', 'true', 'false', 'yes', 'no', 'on', 'off',
+        '=', '<<', '.inf', '+.inf', '.nan')
+    resembles_number = re.compile(r'^[-+.0-9][-+.:_0-9a-fA-FxXtTzZ ]*$')
     whitespace = re.compile(r'^\s*$')
 
     @classmethod
@@ -66,7 +68,11 @@ class Yaml(Format):
 
     @classmethod
     def _requires_escaping(cls, value):
-        if value[0] in cls.indicators:
+        if value[0] in cls.indicators or value[0] == ' ':
+            return True
+        elif value[-1] in ': ' or value.startswith('...'):
+            return True
+        elif cls.resembles_number.match(value):
             return True
 
         for token in cls.requires_escape:
-- 
2.43.0


From 1c8f8ea20dae0bda175b76e0faae04a5d677f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 46/72] fix: quote the keys of YAML mappings

---
 scheme/formats/yaml.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 7558ef3..9c74faa 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -81,6 +81,19 @@ class Yaml(Format):
         else:
             return False
 
+    @classmethod
+    def _requires_quotes(cls, value):
+        return not value or (len(value) <= 5 and value.lower() in cls.requires_quotes)
+
+    @classmethod
+    def _serialize_key(cls, value):
+        if not isinstance(value, string):
+            return cls._serialize_value(value, None)
+        elif cls._requires_quotes(value) or cls._requires_escaping(value):
+            return "'%s'" % value.replace("'", "''")
+        else:
+            return value
+
     @classmethod
     def _serialize_sequence(cls, value, level):
         if not value:
@@ -114,7 +127,7 @@ class Yaml(Format):
 
         lines = []
         for k, v in items:
-            key = '%s%s:' % (cls.indent * level, k)
+            key = '%s%s:' % (cls.indent * level, cls._serialize_key(k))
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
@@ -135,9 +148,7 @@ class Yaml(Format):
     @classmethod
     def _serialize_string(cls, value, level):
         length = len(value)
-        if length == 0:
-            return "''"
-        elif length <= 5 and value.lower() in cls.requires_quotes:
+        if cls._requires_quotes(value):
             return "'%s'" % value
 
         indent = cls.indent * level
-- 
2.43.0


From d8132830e76ec880aa781a6e9e0d6cbf0a5dd7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:12 +0000
Subject: [PATCH 47/72] fix: escape characters that YAML cannot hold as they
 are

---
 scheme/formats/yaml.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 9c74faa..83edffa 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -28,6 +28,8 @@ class Yaml(Format):
     mimetype = 'application/x-yaml'
     name = 'yaml'
     requires_escape = (': ', ' #')
+    requires_escape_sequence = re.compile(
+        u'[\x00-\x1f\x7f-\x9f\u2028\u2029\ud800-\udfff\ufeff\ufffe\uffff]')
     requires_quotes = ('null', '~', 'true', 'false', 'yes', 'no', 'on', 'off',
         '=', '<<', '.inf', '+.inf', '.nan')
     resembles_number = re.compile(r'^[-+.0-9][-+.:_0-9a-fA-FxXtTzZ ]*$')
@@ -85,10 +87,25 @@ class Yaml(Format):
     def _requires_quotes(cls, value):
         return not value or (len(value) <= 5 and value.lower() in cls.requires_quotes)
 
+    @classmethod
+    def _requires_escape_sequences(cls, value):
+        return cls.requires_escape_sequence.search(value) is not None
+
+    @classmethod
+    def _serialize_escaped_string(cls, value):
+        def escape(match):
+            code = ord(match.group(0))
+            return ('\\x%02x' if code <= 0xff else '\\u%04x') % code
+
+        value = value.replace('\\', '\\\\').replace('"', '\\"')
+        return '"%s"' % cls.requires_escape_sequence.sub(escape, value)
+
     @classmethod
     def _serialize_key(cls, value):
         if not isinstance(value, string):
             return cls._serialize_value(value, None)
+        elif cls._requires_escape_sequences(value):
+            return cls._serialize_escaped_string(value)
         elif cls._requires_quotes(value) or cls._requires_escaping(value):
             return "'%s'" % value.replace("'", "''")
         else:
@@ -152,7 +169,11 @@ class Yaml(Format):
             return "'%s'" % value
 
         indent = cls.indent * level
-        if '\n' in value:
+        if cls._requires_escape_sequences(value.replace('\n', '').replace('\t', '')):
+            return cls._serialize_escaped_string(value)
+        elif '\t' in value and '\n' not in value:
+            return cls._serialize_escaped_string(value)
+        elif '\n' in value:
             lines = ['|']
             for line in value.split('\n'):
                 if line:
-- 
2.43.0


From 88b984119e359d2c36a9460a275cececbbc12db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 48/72] fix: keep the line breaks and blanks of multi-line YAML
 texts

---
 scheme/formats/yaml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 83edffa..340518b 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -168,13 +168,16 @@ class Yaml(Format):
         if cls._requires_quotes(value):
             return "'%s'" % value
 
-        indent = cls.indent * level
+        indent = cls.indent * max(level, 1)
         if cls._requires_escape_sequences(value.replace('\n', '').replace('\t', '')):
             return cls._serialize_escaped_string(value)
         elif '\t' in value and '\n' not in value:
             return cls._serialize_escaped_string(value)
         elif '\n' in value:
-            lines = ['|']
+            if value[0] in ' \t\n' or value.endswith('\n\n'):
+                return cls._serialize_escaped_string(value)
+
+            lines = ['|' if value[-1] == '\n' else '|-']
             for line in value.split('\n'):
                 if line:
                     lines.append(indent + line)
-- 
2.43.0


From 203a8781d69e3c7095253510e848131becb69135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 49/72] fix: wrap long YAML texts at single blanks only

---
 scheme/formats/yaml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 340518b..7fe55b0 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -184,7 +184,7 @@ class Yaml(Format):
                 else:
                     lines.append('')
             return lines
-        elif length + len(indent) <= cls.line_width:
+        elif length + len(indent) <= cls.line_width or '  ' in value or ' ' in (value[0], value[-1]):
             if cls._requires_escaping(value):
                 return "'%s'" % value.replace("'", "''")
             else:
@@ -194,7 +194,7 @@ class Yaml(Format):
                 value = "'%s'" % value.replace("'", "''")
 
             wrapper = TextWrapper(width=cls.line_width, initial_indent=indent,
-                subsequent_indent=indent, break_long_words=False,
+                subsequent_indent=indent, break_long_words=False, break_on_hyphens=False,
                 replace_whitespace=False, drop_whitespace=False)
 
             lines = []
-- 
2.43.0


From 62ff9e159d2c210bee5441f829e56a93c5ebea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:23 +0000
Subject: [PATCH 50/72] fix: write floats to YAML in forms it reads as floats

---
 scheme/formats/yaml.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 7fe55b0..0d978fd 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -100,6 +100,18 @@ class Yaml(Format):
         value = value.replace('\\', '\\\\').replace('"', '\\"')
         return '"%s"' % cls.requires_escape_sequence.sub(escape, value)
 
+    @classmethod
+    def _serialize_float(cls, value):
+        if value != value:
+            return '.nan'
+        elif value in (float('inf'), float('-inf')):
+            return '.inf' if value > 0 else '-.inf'
+
+        content = repr(value)
+        if 'e' in content and '.' not in content:
+            content = content.replace('e', '.0e')
+        return content
+
     @classmethod
     def _serialize_key(cls, value):
         if not isinstance(value, string):
@@ -221,7 +233,9 @@ class Yaml(Format):
             return strftime(value, '%Y-%m-%d %H:%M:%S')
         elif isinstance(value, date):
             return strftime(value, '%Y-%m-%d')
-        elif isinstance(value, (float, int)):
+        elif isinstance(value, float):
+            return cls._serialize_float(value)
+        elif isinstance(value, int):
             return str(value)
         else:
             raise ValueError(value)
-- 
2.43.0


From acc04e290b1d656fb6bf055d0f2d3cf477682232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 51/72] fix: keep the microseconds and offsets of datetimes
 written to YAML

---
 scheme/formats/yaml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 0d978fd..8ffb185 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -230,7 +230,7 @@ class Yaml(Format):
             else:
                 return 'false'
         elif isinstance(value, datetime):
-            return strftime(value, '%Y-%m-%d %H:%M:%S')
+            return value.isoformat(' ')
         elif isinstance(value, date):
             return strftime(value, '%Y-%m-%d')
         elif isinstance(value, float):
-- 
2.43.0


From 2ce3d4a6182b85f13e8827313eacccdb5ffa625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:04 +0000
Subject: [PATCH 52/72] fix: read back empty text from XML as text instead of
 null

---
 scheme/formats/xml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index f250867..6f73f81 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -78,6 +78,8 @@ class Xml(Format):
         attr = element.tag
         if element.get('null', False):
             return attr, None
+        elif field.type == 'text':
+            return attr, element.text or ''
         elif field.type == 'boolean':
             return attr, (element.text.lower() == 'true')
         elif field.type == 'float':
-- 
2.43.0


From 153efbd371aeafa34c79d4bbcfa9ab0b4af54a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:07 +0000
Subject: [PATCH 53/72] fix: keep carriage returns in text written to XML

---
 scheme/formats/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index 6f73f81..edcf131 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -23,7 +23,7 @@ class Xml(Format):
         element = etree.Element(schema.name or cls.default_root)
         cls._serialize_content(value, element, schema)
 
-        serialized = etree.tostring(element).decode('us-ascii')
+        serialized = etree.tostring(element).decode('us-ascii').replace('\r', '&#13;')
         if preamble:
             serialized = cls.preamble + serialized
 
-- 
2.43.0


From 721aa2f2af15a2395874d3f05e73d0608c358e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:10 +0000
Subject: [PATCH 54/72] fix: write and read polymorphic structures as XML

---
 scheme/formats/xml.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scheme/formats/xml.py b/scheme/formats/xml.py
index edcf131..6dc1636 100644
--- a/scheme/formats/xml.py
+++ b/scheme/formats/xml.py
@@ -2,7 +2,7 @@ from __future__ import absolute_import
 
 import xml.etree.cElementTree as etree
 
-from scheme.field import Field
+from scheme.field import Field, INBOUND
 from scheme.format import Format
 
 __all__ = ('Xml',)
@@ -38,6 +38,15 @@ class Xml(Format):
         attr, value = cls._unserialize_element(root, schema)
         return value
 
+    @classmethod
+    def _get_structure(cls, field, getter):
+        polymorphic_on = field.polymorphic_on
+        if not polymorphic_on:
+            return field.structure
+
+        identity = getter(polymorphic_on.name)
+        return field.structure[polymorphic_on.process(identity, INBOUND, True)]
+
     @classmethod
     def _serialize_content(cls, content, element, field):
         if content is None:
@@ -49,9 +58,10 @@ class Xml(Format):
                 element.text = 'false'
         elif field.type == 'structure':
             if content:
+                structure = cls._get_structure(field, content.get)
                 for key, value in sorted(content.items()):
                     subelement = etree.SubElement(element, key)
-                    cls._serialize_content(value, subelement, field.structure[key])
+                    cls._serialize_content(value, subelement, structure[key])
         elif field.type == 'map':
             if content:
                 for key, value in sorted(content.items()):
@@ -91,7 +101,8 @@ class Xml(Format):
         elif field.type == 'sequence':
             return attr, [cls._unserialize_element(v, field.item)[1] for v in element]
         elif field.type == 'structure':
-            return attr, dict(cls._unserialize_element(v, field.structure[v.tag])
+            structure = cls._get_structure(field, element.findtext)
+            return attr, dict(cls._unserialize_element(v, structure[v.tag])
                 for v in element)
         elif field.type == 'tuple':
             return attr, tuple(cls._unserialize_element(v, field.values[i])[1]
-- 
2.43.0


From 1e71ab1bdd046a51b963e7088c5d31c34b1c8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 55/72] fix: keep the content of a file when the value to write
 cannot be serialized

---
 scheme/format.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheme/format.py b/scheme/format.py
index fda8db8..efb47a3 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -81,5 +81,6 @@ class Format(object):
             else:
                 raise ValueError(format)
 
+        content = format.serialize(value, schema, **params)
         with open(path, 'w+') as openfile:
-            openfile.write(format.serialize(value, schema, **params))
+            openfile.write(content)
-- 
2.43.0


From 8c7e52d43fa6e7a297087d697235c411b8faf516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 56/72] fix: keep line breaks when reading and writing files

---
 scheme/format.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheme/format.py b/scheme/format.py
index efb47a3..fa19199 100644
--- a/scheme/format.py
+++ b/scheme/format.py
@@ -4,6 +4,9 @@ from scheme.util import with_metaclass
 
 __all__ = ('Format',)
 
+# python 3 translates line breaks unless told otherwise
+LINE_BREAKS = {'newline': ''} if str is not bytes else {}
+
 class FormatMeta(type):
     def __new__(metatype, name, bases, namespace):
         format = type.__new__(metatype, name, bases, namespace)
@@ -54,7 +57,7 @@ class Format(object):
             else:
                 raise ValueError(format)
 
-        with open(path) as openfile:
+        with open(path, **LINE_BREAKS) as openfile:
             return format.unserialize(openfile.read(), schema, **params)
 
     @classmethod
@@ -82,5 +85,5 @@ class Format(object):
                 raise ValueError(format)
 
         content = format.serialize(value, schema, **params)
-        with open(path, 'w+') as openfile:
+        with open(path, 'w+', **LINE_BREAKS) as openfile:
             openfile.write(content)
-- 
2.43.0


From 2309605219779d6b0ebe20ad6b5c5a3d6c7e4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 57/72] fix: keep line breaks of interpolated text

---
 scheme/interpolation.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scheme/interpolation.py b/scheme/interpolation.py
index 522396a..81c2426 100644
--- a/scheme/interpolation.py
+++ b/scheme/interpolation.py
@@ -24,7 +24,8 @@ class Interpolator(object):
     def __init__(self, filters=None, globals=None):
         self.environment = jinja2.Environment(
             variable_start_string='${',
-            variable_end_string='}')
+            variable_end_string='}',
+            keep_trailing_newline=True)
 
         for filter in self.standard_filters:
             self.environment.filters[filter.__name__] = filter
@@ -54,7 +55,15 @@ class Interpolator(object):
             return value
 
     def interpolate(self, subject, parameters):
-        template = self.environment.from_string(subject)
+        environment = self.environment
+        for marker in (environment.variable_start_string, environment.block_start_string,
+                environment.comment_start_string):
+            if marker in subject:
+                break
+        else:
+            return subject
+
+        template = environment.from_string(subject)
         return template.render(parameters)
 
 def interpolate_parameters(subject, parameters, simple=False, interpolator=None):
-- 
2.43.0


From fb4b6cba6cb6ae1b082f0f4bd7e04699bb7dc383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:29 +0000
Subject: [PATCH 58/72] fix: interpolate a null parameter of a numeric field as
 null

---
 scheme/fields/decimal.py | 3 ++-
 scheme/fields/float.py   | 3 ++-
 scheme/fields/integer.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scheme/fields/decimal.py b/scheme/fields/decimal.py
index b00a3b1..9f28ad5 100644
--- a/scheme/fields/decimal.py
+++ b/scheme/fields/decimal.py
@@ -70,7 +70,8 @@ class Decimal(Field):
         elif isinstance(subject, decimal):
             return subject
         else:
-            return decimal(interpolate_parameters(subject, parameters, True, interpolator))
+            value = interpolate_parameters(subject, parameters, True, interpolator)
+            return decimal(value) if value is not None else None
 
     def _serialize_value(self, value):
         return str(value)
diff --git a/scheme/fields/float.py b/scheme/fields/float.py
index b73f226..b7dbb8d 100644
--- a/scheme/fields/float.py
+++ b/scheme/fields/float.py
@@ -41,7 +41,8 @@ class Float(Field):
         elif isinstance(subject, numbers):
             return float(subject)
         else:
-            return float(interpolate_parameters(subject, parameters, True, interpolator))
+            value = interpolate_parameters(subject, parameters, True, interpolator)
+            return float(value) if value is not None else None
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
diff --git a/scheme/fields/integer.py b/scheme/fields/integer.py
index ee574df..196d4fc 100644
--- a/scheme/fields/integer.py
+++ b/scheme/fields/integer.py
@@ -41,7 +41,8 @@ class Integer(Field):
         elif isinstance(subject, numbers):
             return int(subject)
         else:
-            return int(interpolate_parameters(subject, parameters, True, interpolator))
+            value = interpolate_parameters(subject, parameters, True, interpolator)
+            return int(value) if value is not None else None
 
     def _unserialize_value(self, value, ancestry):
         if value is True or value is False:
-- 
2.43.0


From 1cd09fec047ead7af16f87ce0fb83f03b7644fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 59/72] fix: try the next member of a union that cannot
 interpolate a value

---
 scheme/fields/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/fields/union.py b/scheme/fields/union.py
index 95daec9..966a05b 100644
--- a/scheme/fields/union.py
+++ b/scheme/fields/union.py
@@ -85,7 +85,7 @@ class Union(Field):
         for field in self.fields:
             try:
                 return field.interpolate(subject, parameters, interpolator)
-            except CannotInterpolateError:
+            except (ArithmeticError, CannotInterpolateError, TypeError, ValueError):
                 pass
             except AttributeError:
                 if isinstance(field, Undefined):
-- 
2.43.0


From b76ddf605eec0babd0ddfaa90e547f529ebbb956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:03 +0000
Subject: [PATCH 60/72] fix: interpolate a null parameter of a container or
 enumeration as null

---
 scheme/fields/enumeration.py | 2 +-
 scheme/fields/map.py         | 2 ++
 scheme/fields/sequence.py    | 2 ++
 scheme/fields/structure.py   | 2 ++
 scheme/fields/tuple.py       | 2 ++
 5 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scheme/fields/enumeration.py b/scheme/fields/enumeration.py
index 9275d2b..65ee030 100644
--- a/scheme/fields/enumeration.py
+++ b/scheme/fields/enumeration.py
@@ -48,7 +48,7 @@ class Enumeration(Field):
             return subject
 
         value = interpolate_parameters(subject, parameters, True, interpolator)
-        if value in self.enumeration:
+        if value is None or value in self.enumeration:
             return value
         else:
             raise CannotInterpolateError('subject must be a value in this enumeration')
diff --git a/scheme/fields/map.py b/scheme/fields/map.py
index 9f47cce..0bd304e 100644
--- a/scheme/fields/map.py
+++ b/scheme/fields/map.py
@@ -157,6 +157,8 @@ class Map(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
diff --git a/scheme/fields/sequence.py b/scheme/fields/sequence.py
index 7d1d145..e4866ec 100644
--- a/scheme/fields/sequence.py
+++ b/scheme/fields/sequence.py
@@ -144,6 +144,8 @@ class Sequence(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple value')
diff --git a/scheme/fields/structure.py b/scheme/fields/structure.py
index 86dbaa2..a6d0cf8 100644
--- a/scheme/fields/structure.py
+++ b/scheme/fields/structure.py
@@ -314,6 +314,8 @@ class Structure(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, dict):
             raise CannotInterpolateError('interpolation candidate must be a dict value')
diff --git a/scheme/fields/tuple.py b/scheme/fields/tuple.py
index 5098b63..c57c8c5 100644
--- a/scheme/fields/tuple.py
+++ b/scheme/fields/tuple.py
@@ -146,6 +146,8 @@ class Tuple(Field):
 
         if isinstance(subject, string):
             subject = interpolate_parameters(subject, parameters, True, interpolator)
+            if subject is None:
+                return None
 
         if not isinstance(subject, (list, tuple)):
             raise CannotInterpolateError('interpolation candidate must be a list or tuple')
-- 
2.43.0


From 1544b824b744216dd1f6563c0616a066ab9d4b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 61/72] fix: keep a leading wide blank of a long text in YAML
 output

---
 scheme/formats/yaml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 8ffb185..54633b7 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -137,7 +137,7 @@ class Yaml(Format):
         for v in value:
             content = cls._serialize_value(v, level + 1)
             if isinstance(content, list):
-                lines.append('%s %s' % (prefix, content[0].lstrip()))
+                lines.append('%s %s' % (prefix, content[0].lstrip(' ')))
                 lines.extend(content[1:])
             else:
                 lines.append('%s %s' % (prefix, content))
@@ -160,7 +160,7 @@ class Yaml(Format):
             if isinstance(v, string):
                 content = cls._serialize_string(v, level + 1)
                 if isinstance(content, list):
-                    lines.append('%s %s' % (key, content[0].lstrip()))
+                    lines.append('%s %s' % (key, content[0].lstrip(' ')))
                     lines.extend(content[1:])
                 else:
                     lines.append('%s %s' % (key, content))
-- 
2.43.0


From a206d0b7696c2447397c472af299ecbba6fec595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 62/72] fix: give surrogates their identity under Python 3,
 where __metaclass__ means nothing

---
 scheme/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index f2175a0..a6d769e 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -1,7 +1,7 @@
 from copy import deepcopy
 
 import scheme
-from scheme.util import identify_object, import_object, string
+from scheme.util import identify_object, import_object, string, with_metaclass
 
 __all__ = ('surrogate',)
 
@@ -11,6 +11,7 @@ class SurrogateMeta(type):
         cls.surrogate = identify_object(cls)
         return cls
 
+@with_metaclass(SurrogateMeta)
 class surrogate(dict):
     """A schema-based object surrogate.
 
@@ -25,7 +26,6 @@ class surrogate(dict):
     :param integer version: Optional, default is ``None``; the schema version of this surrogate.
     """
 
-    __metaclass__ = SurrogateMeta
     cache = {}
     schemas = None
 
-- 
2.43.0


From b4a54c98279a5a64a1c142fe538a5a794480db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 63/72] fix: compare the identity of a surrogate with the valid
 surrogates of its field

---
 scheme/fields/surrogate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 3cd584d..61daf55 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -15,7 +15,7 @@ class Surrogate(Field):
 
     errors = [
         FieldError('invalid', 'invalid value', '%(field)s must be a surrogate'),
-        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogate)s'),
+        FieldError('invalid-surrogate', 'invalid surrogate', '%(field)s must be one of %(surrogates)s'),
     ]
 
     def __init__(self, valid_surrogates=None, **params):
@@ -62,6 +62,6 @@ class Surrogate(Field):
         if not isinstance(value, surrogate):
             raise InvalidTypeError(identity=ancestry, field=self, value=value).construct('invalid')
 
-        if self.valid_surrogates and value.identity not in self.valid_surrogates:
+        if self.valid_surrogates and value.surrogate not in self.valid_surrogates:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
                 'invalid-surrogate', surrogates=', '.join(sorted(self.valid_surrogates)))
-- 
2.43.0


From 24491d672328a658660b73561ab0ca57b3370a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 64/72] fix: refuse malformed surrogates as invalid, and keep
 surrogates given in place of their serialized form

---
 scheme/fields/surrogate.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 61daf55..807c801 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -50,13 +50,19 @@ class Surrogate(Field):
         return value.serialize()
 
     def _unserialize_value(self, value, ancestry):
-        if isinstance(value, dict):
-            return surrogate.unserialize(value, ancestry)
-        elif isinstance(value, surrogate):
+        if isinstance(value, surrogate):
             return value
-        else:
-            raise InvalidTypeError(identity=ancestry, field=self,
-                value=value).construct('invalid')
+
+        if isinstance(value, dict):
+            try:
+                return surrogate.unserialize(value, ancestry)
+            except StructuralError:
+                raise
+            except Exception:
+                pass
+
+        raise InvalidTypeError(identity=ancestry, field=self,
+            value=value).construct('invalid')
 
     def _validate_value(self, value, ancestry):
         if not isinstance(value, surrogate):
-- 
2.43.0


From 19aa2dc4d5b50b706880d240cf84c6f8fe62d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 65/72] fix: refuse versions below one of a surrogate, which
 counted from its newest schema

---
 scheme/surrogate.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index a6d769e..2f08053 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -72,7 +72,7 @@ class surrogate(dict):
             if version is None:
                 version = len(impl.schemas)
             try:
-                effective_schema = impl.schemas[version - 1]
+                effective_schema = impl._get_schema(version)
             except IndexError:
                 raise Exception('invalid surrogate version')
 
@@ -157,6 +157,12 @@ class surrogate(dict):
         cls.cache[token] = impl
         return impl
 
+    @classmethod
+    def _get_schema(cls, version):
+        if version < 1:
+            raise IndexError(version)
+        return cls.schemas[version - 1]
+
     @classmethod
     def _interpolate_dynamic_surrogate(cls, value, parameters, interpolator):
         schema = scheme.Field.reconstruct(deepcopy(value.pop('__schema__')))
@@ -174,7 +180,7 @@ class surrogate(dict):
             version = len(cls.schemas)
 
         try:
-            schema = cls.schemas[version - 1]
+            schema = cls._get_schema(version)
         except IndexError:
             raise ValueError(value)
 
@@ -199,7 +205,7 @@ class surrogate(dict):
     def _unserialize_versioned_surrogate(cls, value, ancestry=None):
         version = value.pop('__version__', 1)
         try:
-            schema = cls.schemas[version - 1]
+            schema = cls._get_schema(version)
         except IndexError:
             raise ValueError(value)
 
-- 
2.43.0


From 48c51264ae945ab0fe89989123614d3f9c72a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:35 +0000
Subject: [PATCH 66/72] fix: report where a value which cannot be serialized
 stands

---
 scheme/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheme/field.py b/scheme/field.py
index 0c1a038..ae7152b 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -487,6 +487,9 @@ class Field(object):
                 value = self._serialize_value(value)
             except OverflowError:
                 raise ValidationError(identity=ancestry, field=self, value=value).construct('overflow')
+            except InvalidTypeError as exception:
+                exception.identity = ancestry
+                raise
 
         return value
 
-- 
2.43.0


From 63354b6745a4e2f69c363aceabf7c8402d860ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:59 +0000
Subject: [PATCH 67/72] fix: report where invalid surrogate data stands when it
 is serialized

---
 scheme/fields/surrogate.py | 13 +++++++++++--
 scheme/surrogate.py        |  8 ++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/surrogate.py b/scheme/fields/surrogate.py
index 807c801..1e6f0f0 100644
--- a/scheme/fields/surrogate.py
+++ b/scheme/fields/surrogate.py
@@ -46,8 +46,17 @@ class Surrogate(Field):
         else:
             raise ValueError(subject)
 
-    def _serialize_value(self, value):
-        return value.serialize()
+    def process(self, value, phase=INBOUND, serialized=False, ancestry=None):
+        if not (serialized and phase == OUTBOUND):
+            return super(Surrogate, self).process(value, phase, serialized, ancestry)
+
+        if not ancestry:
+            ancestry = [self.guaranteed_name]
+
+        value = super(Surrogate, self).process(value, phase, False, ancestry)
+        if value is not None:
+            value = value.serialize(ancestry)
+        return value
 
     def _unserialize_value(self, value, ancestry):
         if isinstance(value, surrogate):
diff --git a/scheme/surrogate.py b/scheme/surrogate.py
index 2f08053..aa4b650 100644
--- a/scheme/surrogate.py
+++ b/scheme/surrogate.py
@@ -111,15 +111,15 @@ class surrogate(dict):
         else:
             raise ValueError(value)
 
-    def serialize(self):
-        """Serializes this surrogate."""
+    def serialize(self, ancestry=None):
+        """Serializes this surrogate; ``ancestry`` is its place within a larger structure, if any."""
 
         value = dict(self)
         if self.schema:
-            value = self.schema.serialize(value)
+            value = self.schema.serialize(value, ancestry=ancestry)
             value['__schema__'] = self.schema.describe()
         elif self.schemas:
-            value = self.schemas[self.version - 1].serialize(value)
+            value = self.schemas[self.version - 1].serialize(value, ancestry=ancestry)
             if self.version > 1:
                 value['__version__'] = self.version
 
-- 
2.43.0


From 886e6ba00f80ac3ef5394bad28603e66bb7d16dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 68/72] fix: take a datetime limit of a date field as its date

---
 scheme/fields/date.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheme/fields/date.py b/scheme/fields/date.py
index 4235b52..d41f1ee 100644
--- a/scheme/fields/date.py
+++ b/scheme/fields/date.py
@@ -43,6 +43,11 @@ class Date(Field):
                 raise TypeError("argument 'minimum' must be either None, a datetime.date,"
                     " or a string in the format 'YYYY-MM-DD'")
 
+        if isinstance(maximum, datetime):
+            maximum = maximum.date()
+        if isinstance(minimum, datetime):
+            minimum = minimum.date()
+
         self.maximum = maximum
         self.minimum = minimum
 
-- 
2.43.0


From c2df1faf2678866751feccd61049b05eac1cb3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 69/72] fix: state the limits of a datetime by the UTC clock

---
 scheme/fields/datetime.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scheme/fields/datetime.py b/scheme/fields/datetime.py
index d95b086..475bc5f 100644
--- a/scheme/fields/datetime.py
+++ b/scheme/fields/datetime.py
@@ -52,9 +52,9 @@ class DateTime(Field):
     def __repr__(self):
         aspects = []
         if self.minimum is not None:
-            aspects.append('minimum=%r' % strftime(self.minimum, self.pattern))
+            aspects.append('minimum=%r' % self._serialize_limit(self.minimum))
         if self.maximum is not None:
-            aspects.append('maximum=%r' % strftime(self.maximum, self.pattern))
+            aspects.append('maximum=%r' % self._serialize_limit(self.maximum))
         if self.utc:
             aspects.append('utc=True')
 
@@ -63,9 +63,9 @@ class DateTime(Field):
     def describe(self, parameters=None, verbose=False):
         params = {}
         if self.maximum is not None:
-            params['maximum'] = self._serialize_value(self.maximum)
+            params['maximum'] = self._serialize_limit(self.maximum)
         if self.minimum is not None:
-            params['minimum'] = self._serialize_value(self.minimum)
+            params['minimum'] = self._serialize_limit(self.minimum)
 
         return super(DateTime, self).describe(parameters, verbose, **params)
 
@@ -79,6 +79,12 @@ class DateTime(Field):
         else:
             return value.replace(tzinfo=timezone)
 
+    def _serialize_limit(self, value):
+        try:
+            return self._serialize_value(value)
+        except OverflowError:
+            return strftime(datetime.min if value.year == 1 else datetime.max, self.pattern)
+
     def _serialize_value(self, value):
         if value.tzinfo is not UTC:
             value = value.astimezone(UTC)
@@ -106,11 +112,11 @@ class DateTime(Field):
         minimum = self.minimum
         if minimum is not None and value < minimum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'minimum', minimum=strftime(minimum, self.pattern))
+                'minimum', minimum=self._serialize_limit(minimum))
 
         maximum = self.maximum
         if maximum is not None and value > maximum:
             raise ValidationError(identity=ancestry, field=self, value=value).construct(
-                'maximum', maximum=strftime(maximum, self.pattern))
+                'maximum', maximum=self._serialize_limit(maximum))
 
         return value
-- 
2.43.0


From 8c88249af43822a29b39477458523f0f056a8d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:18 +0000
Subject: [PATCH 70/72] fix: keep the aspects of a field apart from the mapping
 they are given by

---
 scheme/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/field.py b/scheme/field.py
index ae7152b..7c6892b 100644
--- a/scheme/field.py
+++ b/scheme/field.py
@@ -187,7 +187,7 @@ class Field(object):
         if extractor:
             extractor = getattr(extractor, '__extract__', extractor)
 
-        self.aspects = aspects or {}
+        self.aspects = dict(aspects) if aspects else {}
         self.constant = constant
         self.default = default
         self.description = description
-- 
2.43.0


From c1b0993d67a4e44c36e6d97619b4b3c3a81a6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:39 +0000
Subject: [PATCH 71/72] fix: show tuples of one item as tuples

---
 scheme/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scheme/util.py b/scheme/util.py
index 960ca46..deaa2a2 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -199,7 +199,11 @@ class StructureFormatter(object):
                 lines.append('%s%s,' % (inner_indent, description))
 
         if single_line:
-            single_line = tokens[0] + ', '.join(l.strip().rstrip(',') for l in lines) + tokens[1]
+            single_line = ', '.join(l.strip().rstrip(',') for l in lines)
+            if tokens == '()' and len(lines) == 1:
+                single_line += ','
+
+            single_line = tokens[0] + single_line + tokens[1]
             if len(single_line) <= 60:
                 return single_line
 
-- 
2.43.0


From 16e18bddf368732e83480dbcd0043396e147d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:05 +0000
Subject: [PATCH 72/72] fix: order keys of types which cannot be compared

---
 scheme/formats/yaml.py |  4 ++--
 scheme/util.py         | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scheme/formats/yaml.py b/scheme/formats/yaml.py
index 54633b7..1f5e9d7 100644
--- a/scheme/formats/yaml.py
+++ b/scheme/formats/yaml.py
@@ -16,7 +16,7 @@ except ImportError:
     yaml = None
 
 from scheme.format import *
-from scheme.util import strftime, string
+from scheme.util import sorted_items, strftime, string
 
 __all__ = ('Yaml',)
 
@@ -152,7 +152,7 @@ class Yaml(Format):
         if isinstance(value, OrderedDict):
             items = value.items()
         else:
-            items = sorted(value.items())
+            items = sorted_items(value)
 
         lines = []
         for k, v in items:
diff --git a/scheme/util.py b/scheme/util.py
index deaa2a2..286c41f 100644
--- a/scheme/util.py
+++ b/scheme/util.py
@@ -165,7 +165,7 @@ class StructureFormatter(object):
         inner_indent = self.indent * (level + 1)
         singles, multiples = [], []
 
-        for k, v in sorted(value.items()):
+        for k, v in sorted_items(value):
             try:
                 k = str(k)
             except Exception:
@@ -253,6 +253,15 @@ def set_nested_value(subject, path, value):
 
     subject[last] = value
 
+def sorted_items(mapping):
+    """Returns the items of ``mapping`` ordered by key, even when its keys are of various types which
+    cannot be compared with each other."""
+
+    try:
+        return sorted(mapping.items())
+    except TypeError:
+        return sorted(mapping.items(), key=lambda item: (type(item[0]).__name__, str(item[0])))
+
 def strftime(value, pattern):
     """Formats ``value`` according to ``pattern``, with the year always as four digits, which the
     platform's strftime() doesn't ensure for years before 1000."""
-- 
2.43.0

