From 83d7ee71d20a6535199adc3738ce8e6a2619c0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 01/33] fix: make Schema.update report errors for the schema
 being updated

---
 oblate/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..aff2d6d 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -412,6 +412,13 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        schema_token = current_schema.set(self)
+        try:
+            self._update_fields(data, ignore_extra=ignore_extra)
+        finally:
+            current_schema.reset(schema_token)
+
+    def _update_fields(self, data: Mapping[str, Any], *, ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
         old_values = self._field_values.copy()
-- 
2.43.0


From ee4984e06b537847acbcc77b9608d312f0653c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 02/33] fix: restore the current schema after Schema.dump

---
 oblate/schema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index aff2d6d..c356022 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -30,6 +30,7 @@ from typing import (
     List,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -475,7 +476,13 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
+        schema_token = current_schema.set(self)
+        try:
+            return self._dump_fields(fields)
+        finally:
+            current_schema.reset(schema_token)
+
+    def _dump_fields(self, fields: Set[str]) -> Dict[str, Any]:
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-- 
2.43.0


From 478e50651257b395c0b960b08fd12388192bc4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 03/33] fix: roll back Schema.update whatever exception
 interrupts it

---
 oblate/schema.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index c356022..17c72fb 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -413,16 +413,20 @@ class Schema(metaclass=_SchemaMeta):
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
+        old_values = self._field_values.copy()
         schema_token = current_schema.set(self)
         try:
             self._update_fields(data, ignore_extra=ignore_extra)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
         finally:
             current_schema.reset(schema_token)
 
     def _update_fields(self, data: Mapping[str, Any], *, ignore_extra: bool) -> None:
         fields = self.__load_fields__
         errors: List[FieldError] = []
-        old_values = self._field_values.copy()
 
         for key, value in data.items():
             token = current_field_key.set(key)
@@ -439,8 +443,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
             raise config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
-- 
2.43.0


From e3ba2e550505dacce757680b463c07e734ff52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 04/33] fix: restore the current context however a value is
 processed

---
 oblate/schema.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 17c72fb..51c7df4 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -246,12 +246,25 @@ class Schema(metaclass=_SchemaMeta):
         # using this data. This is done when validators are ran on initialization
         # of schema. (e.g. Schema._prepare_from_data does this)
 
+        context = LoadContext(field=field, value=value, schema=self)
+        token = current_context.set(context)
+        try:
+            return self._load_field_value(field, value, context, validators)
+        finally:
+            current_context.reset(token)
+
+    def _load_field_value(
+            self,
+            field: Field[Any, Any],
+            value: Any,
+            context: LoadContext,
+            validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]],
+        ) -> List[FieldError]:
+
         name = field._name
         lazy_validation = validators is not None
         errors: List[FieldError] = []
         validator_errors: List[FieldError] = []
-        context = LoadContext(field=field, value=value, schema=self)
-        token = current_context.set(context)
 
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
@@ -279,8 +292,6 @@ class Schema(metaclass=_SchemaMeta):
             if not validator_errors:
                 self._field_values[name] = final_value
             errors.extend(validator_errors)
-        finally:
-            current_context.reset(token)
 
         return errors
 
-- 
2.43.0


From 115281183eb79d7604fbc20f50e5c9dcc5fd943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 05/33] fix: run raw validators on None in update and
 assignment

---
 oblate/schema.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 51c7df4..a14ea16 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -269,15 +269,17 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
+        if not lazy_validation:
+            validator_errors.extend(field._run_validators(value, context, raw=True))
+
         if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
+            if not field.none:
                 errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+            elif not validator_errors:
+                self._field_values[name] = None
+            errors.extend(validator_errors)
             return errors
 
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
-- 
2.43.0


From e6ee1ca5a3e7216a6173015cb1e185e0468cae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 06/33] fix: report raw validator errors of updates when
 loading fails too

---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a14ea16..f78d8f7 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -293,8 +293,8 @@ class Schema(metaclass=_SchemaMeta):
                 validators.append((field, final_value, context, False))
             if not validator_errors:
                 self._field_values[name] = final_value
-            errors.extend(validator_errors)
 
+        errors.extend(validator_errors)
         return errors
 
     def _get_field(self, name: str) -> Field[Any, Any]:
-- 
2.43.0


From 3a59052a92ae45ff6ab756441457a86546635c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 07/33] fix: use the load key for errors raised by attribute
 assignment

---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From 6c987cacc19396f990c2a33a9b5ebf3b524646ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 08/33] fix: drop the load key of an overridden inherited field

---
 oblate/schema.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index f78d8f7..314c520 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -142,17 +142,14 @@ class Schema(metaclass=_SchemaMeta):
             # When a schema is subclassed, the fields have to be copied so
             # the parent schema's fields are not modified
             cls.__fields__ = cls.__fields__.copy()
-            cls.__load_fields__ = cls.__load_fields__.copy()
         else:
             cls.__fields__ = {}
-            cls.__load_fields__ = {}
 
         members = vars(cls).copy()
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
                 cls.__fields__[name] = member  # type: ignore
-                cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -165,6 +162,8 @@ class Schema(metaclass=_SchemaMeta):
 
                 field.add_validator(member)
 
+        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
+
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
-- 
2.43.0


From 638c8193b4cd181905cab688c58e3c37445affbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:58 +0000
Subject: [PATCH 09/33] fix: inherit the fields of every base schema

---
 oblate/schema.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 314c520..9a1f3d9 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -138,12 +138,13 @@ class Schema(metaclass=_SchemaMeta):
         # circular import
         from oblate.fields.base import Field
 
-        if hasattr(cls, '__fields__'):
-            # When a schema is subclassed, the fields have to be copied so
-            # the parent schema's fields are not modified
-            cls.__fields__ = cls.__fields__.copy()
-        else:
-            cls.__fields__ = {}
+        # The fields of all parent schemas are collected in a new mapping so
+        # the parent schemas' fields are not modified
+        cls.__fields__ = {
+            name: member
+            for base in reversed(cls.__mro__[1:]) if issubclass(base, Schema)
+            for name, member in vars(base).items() if isinstance(member, Field)
+        }
 
         members = vars(cls).copy()
         for name, member in members.items():
-- 
2.43.0


From 7ddb17a64c42d937bb07ec423c6b19bf72c0fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 10/33] fix: allow validators for inherited fields without
 altering the parent

---
 oblate/schema.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 9a1f3d9..46598f4 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -147,6 +147,7 @@ class Schema(metaclass=_SchemaMeta):
         }
 
         members = vars(cls).copy()
+        copies: Dict[Field[Any, Any], Field[Any, Any]] = {}
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
@@ -154,10 +155,16 @@ class Schema(metaclass=_SchemaMeta):
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
-                    try:
-                        field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                    field = members.get(field, cls.__fields__.get(field, field))
+                if isinstance(field, Field) and field not in copies and field._is_bound() and \
+                        field._schema is not cls and cls.__fields__.get(field._name) is field:
+                    # The field is inherited so the validator is added to a copy
+                    # of it and the parent schema's field is not modified
+                    copies[field] = field.copy()
+                    copies[field]._bind(field._name, cls)
+                    cls.__fields__[field._name] = copies[field]
+                    setattr(cls, field._name, copies[field])
+                field = copies.get(field, field)
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
-- 
2.43.0


From d1e6f25ce1652016ad2c09bc6a875a785f72414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:07 +0000
Subject: [PATCH 11/33] fix: render field errors whose message is an arbitrary
 mapping

---
 oblate/exceptions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..fd7b4d1 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -225,7 +225,7 @@ class ValidationError(OblateException):
 
             builder.append(message)
             for idx, error in enumerate(errors):
-                if isinstance(error.message, dict):
+                if self._is_nested_report(error.message):
                     builder.append(self._make_message(error.message, level=level+1))  # type: ignore
                     continue
 
@@ -237,6 +237,14 @@ class ValidationError(OblateException):
 
         return '\n│\n' + '\n'.join(builder)
 
+    def _is_nested_report(self, message: Any) -> bool:
+        # Errors of nested schemas have a mapping of keys to lists of errors as
+        # the message; other mappings are user provided messages
+        return isinstance(message, dict) and bool(message) and all(
+            isinstance(errors, list) and all(isinstance(error, FieldError) for error in errors)  # type: ignore
+            for errors in message.values()  # type: ignore
+        )
+
     def _ensure_string(self, obj: Any) -> Any:
         if isinstance(obj, FieldError):
             return self._ensure_string(obj.message)
-- 
2.43.0


From 4e5ff4ee01a7b27639ba0dc041cdfa806c2c562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 12/33] fix: dump None values of Object fields as None

---
 oblate/fields/nesting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..9e921a9 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -22,7 +22,7 @@
 
 from __future__ import annotations
 
-from typing import TYPE_CHECKING, Type, Mapping, TypeVar, Any, Union
+from typing import TYPE_CHECKING, Type, Mapping, TypeVar, Any, Optional, Union
 from oblate.fields.base import Field
 from oblate.schema import Schema
 from oblate.exceptions import FieldError, ValidationError
@@ -114,5 +114,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
 
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
-    def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
+    def value_dump(self, value: Optional[SchemaT], context: DumpContext) -> Optional[Mapping[str, Any]]:
+        if value is None:
+            return None
         return value.dump()
-- 
2.43.0


From 2bac250c3d32c368b50e794070435bb0c356ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 13/33] fix: report nested dump failures under the key of the
 nested field

---
 oblate/fields/nesting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index 9e921a9..96553fd 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -117,4 +117,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
     def value_dump(self, value: Optional[SchemaT], context: DumpContext) -> Optional[Mapping[str, Any]]:
         if value is None:
             return None
-        return value.dump()
+        try:
+            return value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From ea47cbde856b316e399e0e7f8a843c55c8658062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 14/33] fix: validate Mapping type expressions

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..e42fca7 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -347,6 +347,8 @@ class TypeValidator:
             return cls._handle_origin_sequence(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is list:
             return cls._handle_origin_list(value, tp)
         if origin is set:
@@ -367,7 +369,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From 240212701d213d7e022c3ff2d8a4b5d3519fb0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:10 +0000
Subject: [PATCH 15/33] fix: validate values of keys marked Required or
 NotRequired

---
 oblate/type_validation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e42fca7..15afff5 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -202,9 +202,7 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, get_args(tp)[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From 6a53ef9dd74787ed4881afe0ba9b75da26348146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:11 +0000
Subject: [PATCH 16/33] fix: determine required keys of typed dictionaries
 correctly

---
 oblate/type_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 15afff5..900e857 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -189,10 +189,12 @@ class TypeValidator:
                 if not validated:
                     errors.append(f'Validation failed for {key!r}: {msg[0]}')
 
+        # __required_keys__ is not available on Python 3.8
+        required = getattr(tp, '__required_keys__', typehints if tp.__total__ else ())
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
-                # either no marker and total=False -> field is not required
+            if origin is NotRequired or (origin is not Required and key not in required):
+                # either no marker and key defined with total=False -> field is not required
                 # or NotRequired marker and total=True/False -> field is not required
                 continue
 
-- 
2.43.0


From 6d71562fd071b358bd5c6ab1d9509261de96cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 17/33] fix: check every element of tuples given for Sequence

---
 oblate/type_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 900e857..6850932 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -335,7 +335,7 @@ class TypeValidator:
         if value_tp is set:
             return cls._handle_origin_set(value, tp)
         if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 30dd72285165b614ead7eb97a1083833b21eda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 18/33] fix: reject tuples longer than the fixed length tuple
 type

---
 oblate/type_validation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 6850932..da42e09 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -300,6 +300,7 @@ class TypeValidator:
             return False, [f'Must be a valid tuple']
 
         args = get_args(tp)
+        tp_args_given = tp is not Tuple
         errors: List[str] = []
         validated = True
 
@@ -325,6 +326,10 @@ class TypeValidator:
                         validated = False
                         errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover
 
+            if len(value) > len(args) and tp_args_given:  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
+
         return validated, errors
 
     @classmethod
-- 
2.43.0


From f307a3cac257259f3de07ca745309d91d785f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 19/33] fix: accept bare generic aliases in type expressions

---
 oblate/type_validation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index da42e09..c430f47 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -231,7 +231,7 @@ class TypeValidator:
         if not isinstance(value, origin):
             return False, [f'Must be a valid {name.lower()}']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any, Any)
         errors: List[str] = []
         validated = True
         ktp = args[0]
@@ -263,7 +263,7 @@ class TypeValidator:
         if not isinstance(value, list):
             return False, [f'Must be a valid list']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any,)
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -281,7 +281,7 @@ class TypeValidator:
         if not isinstance(value, set):
             return False, [f'Must be a valid set']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any,)
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -340,7 +340,7 @@ class TypeValidator:
         if value_tp is set:
             return cls._handle_origin_set(value, tp)
         if value_tp is tuple:
-            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
+            return cls._handle_origin_tuple(value, Tuple[(get_args(tp) or (Any,))[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 7b6f28af4604c0417291afe7c13f0d980768deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 20/33] fix: honour replacement of oblate.config

---
 oblate/configs.py         | 8 ++++++++
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 8 ++++----
 oblate/type_validation.py | 4 ++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/oblate/configs.py b/oblate/configs.py
index 69a789d..db90953 100644
--- a/oblate/configs.py
+++ b/oblate/configs.py
@@ -149,6 +149,14 @@ config = GlobalConfig()
 """The global configuration of Oblate."""
 
 
+def get_config() -> GlobalConfig:
+    # oblate.config can be replaced by users so it has to be looked up
+    # when it is needed
+    import oblate  # circular import
+
+    return oblate.config
+
+
 class SchemaConfig:
     """The configuration for a schema.
 
diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..8e7f238 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,7 +43,7 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
+from oblate.configs import get_config
 
 import copy
 
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise get_config().validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index 46598f4..6fee914 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -39,7 +39,7 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import get_config, SchemaConfig
 
 import collections.abc
 import inspect
@@ -226,7 +226,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise get_config().validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -463,7 +463,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise get_config().validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
@@ -534,6 +534,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_context.reset(context_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise get_config().validation_error_cls(errors)
 
         return out
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index c430f47..3f7d749 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -155,9 +155,9 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
+        from oblate.configs import get_config  # circular import
 
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not get_config().warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From f6cba3510e3234402e467e32c9c43b1f7527b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 21/33] fix: respect the step in Range.from_standard

---
 oblate/validate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oblate/validate.py b/oblate/validate.py
index ab1a8c0..12c863b 100644
--- a/oblate/validate.py
+++ b/oblate/validate.py
@@ -202,7 +202,11 @@ class Range(Validator[int]):
         would only include the integers accounted by the given standard :func:`range`
         (i.e upper bound not inclusive).
         """
-        return cls(obj.start, obj.stop - 1)
+        self = cls(obj.start, obj.stop - 1)
+        if obj.step != 1:
+            self._range = obj
+            self._msg = f'Value must be in {obj!r}'
+        return self
 
 
 class Length(Validator[collections.abc.Sized]):
-- 
2.43.0


From 2373ac5bb744276c886f2d221dc4056dc12281f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 22/33] fix: make primitive fields load the value they are
 given

---
 oblate/fields/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..74f4c37 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -77,7 +77,7 @@ class String(Field[str, str]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: str, context: LoadContext) -> str:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: str, context: DumpContext) -> str:
         return value
@@ -130,7 +130,7 @@ class Integer(Field[int, int]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: int, context: LoadContext) -> int:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: int, context: DumpContext) -> int:
         return value
@@ -218,7 +218,7 @@ class Boolean(Field[bool, bool]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: bool, context: LoadContext) -> bool:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: bool, context: DumpContext) -> bool:
         return value
@@ -271,7 +271,7 @@ class Float(Field[float, float]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: float, context: LoadContext) -> float:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: float, context: DumpContext) -> float:
         return value
-- 
2.43.0


From a383cd402936c308434cbf62881271a18b474765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 23/33] fix: give FieldNotSet its documented message and name

---
 oblate/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index fd7b4d1..d751abc 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -69,7 +69,8 @@ class FieldNotSet(AttributeError, OblateException):
         self.field_name = field_name
         self.field = field
         self.schema = schema
-        super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
+        super().__init__(f'Field {field._name!r} has no value set')
+        self.name = field_name
 
 
 class FrozenError(OblateException):
-- 
2.43.0


From 92029cf6f0423d2477856c6f44282bfed9806906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 24/33] fix: pass the given value in Boolean coercion errors

---
 oblate/fields/primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 74f4c37..2e2745a 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            text = str(value)
+            if text in self._true_values:
                 return True
-            if value in self._false_values:
+            if text in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From 08bf9115e1bd2ca33a468d050c3fadaf4dbeb815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 25/33] fix: allow non-string keys in type validation errors

---
 oblate/type_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 3f7d749..186bfa5 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -62,7 +62,7 @@ class TypeValidationError(OblateException):
     """
     def __init__(self, errors: Dict[str, List[str]]) -> None:
         self.errors = errors
-        super().__init__(f'Type validation failed for following keys: {", ".join(errors)}')
+        super().__init__(f'Type validation failed for following keys: {", ".join(map(str, errors))}')
 
 
 def validate_types(
-- 
2.43.0


From 818ab6ebb1d004ace5d27d83578393148bbcf6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:50 +0000
Subject: [PATCH 26/33] fix: accept tuple and set subclasses for Sequence

---
 oblate/type_validation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 186bfa5..de2d659 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -334,12 +334,11 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_sequence(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        value_tp = type(value)
-        if value_tp is list:
+        if isinstance(value, list):
             return cls._handle_origin_list(value, tp)
-        if value_tp is set:
+        if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
-        if value_tp is tuple:
+        if isinstance(value, tuple):
             return cls._handle_origin_tuple(value, Tuple[(get_args(tp) or (Any,))[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
-- 
2.43.0


From 8a7fe02efb387448d09b10cd2961dd63a03161ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 27/33] fix: keep message and attributes in errors of message
 lists

---
 oblate/exceptions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index d751abc..e6becf7 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -149,12 +149,9 @@ class FieldError(OblateException):
             return cls(message)
 
     def _copy_with(self, message: Any) -> FieldError:
-        copy = self.__class__.__new__(self.__class__)
+        copy = self.__class__.__new__(self.__class__, message)
+        copy.__dict__.update(self.__dict__)
         copy.message = message
-        copy.state = self.state
-        copy.context = self.context
-        copy.schema = self.schema
-        copy._key = self._key
         return copy
 
     @property
-- 
2.43.0


From 68e313a9e5609d1eb3ad39bd504bb9dac23172d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 28/33] fix: skip types that cannot be checked instead of
 raising TypeError

---
 oblate/type_validation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index de2d659..13f7f09 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -393,7 +393,14 @@ class TypeValidator:
         if origin is None:
             if is_typeddict(tp):
                 return cls._handle_type_typed_dict(value, tp)
-            return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            if tp is None:
+                tp = type(None)
+            try:
+                return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            except TypeError:
+                # not a type that values can be checked against
+                cls._warn_unsupported(tp)
+                return True, []
 
         return cls._handle_origin(value, tp, origin)
 
-- 
2.43.0


From d647e1d11b84fbfbd9ea3742ee3226dd4bae13a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 29/33] fix: leave the fields of a refused schema definition
 unattached

---
 oblate/schema.py | 55 ++++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 6fee914..510f073 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -148,27 +148,40 @@ class Schema(metaclass=_SchemaMeta):
 
         members = vars(cls).copy()
         copies: Dict[Field[Any, Any], Field[Any, Any]] = {}
-        for name, member in members.items():
-            if isinstance(member, Field):
-                member._bind(name, cls)
-                cls.__fields__[name] = member  # type: ignore
-            elif callable(member) and hasattr(member, '__validator_field__'):
-                field = member.__validator_field__
-                if isinstance(field, str):
-                    field = members.get(field, cls.__fields__.get(field, field))
-                if isinstance(field, Field) and field not in copies and field._is_bound() and \
-                        field._schema is not cls and cls.__fields__.get(field._name) is field:
-                    # The field is inherited so the validator is added to a copy
-                    # of it and the parent schema's field is not modified
-                    copies[field] = field.copy()
-                    copies[field]._bind(field._name, cls)
-                    cls.__fields__[field._name] = copies[field]
-                    setattr(cls, field._name, copies[field])
-                field = copies.get(field, field)
-                if not isinstance(field, Field):
-                    raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
-
-                field.add_validator(member)
+        bound: List[Field[Any, Any]] = []
+        validators: List[Tuple[Field[Any, Any], Any]] = []
+        try:
+            for name, member in members.items():
+                if isinstance(member, Field):
+                    member._bind(name, cls)
+                    bound.append(member)
+                    cls.__fields__[name] = member  # type: ignore
+                elif callable(member) and hasattr(member, '__validator_field__'):
+                    field = member.__validator_field__
+                    if isinstance(field, str):
+                        field = members.get(field, cls.__fields__.get(field, field))
+                    if isinstance(field, Field) and field not in copies and field._is_bound() and \
+                            field._schema is not cls and cls.__fields__.get(field._name) is field:
+                        # The field is inherited so the validator is added to a copy
+                        # of it and the parent schema's field is not modified
+                        copies[field] = field.copy()
+                        copies[field]._bind(field._name, cls)
+                        cls.__fields__[field._name] = copies[field]
+                        setattr(cls, field._name, copies[field])
+                    field = copies.get(field, field)
+                    if not isinstance(field, Field):
+                        raise TypeError(f'Validator {name} got an unknown field {field}')  # pragma: no cover
+
+                    validators.append((field, member))
+        except BaseException:
+            # The definition is refused so the fields given to it can
+            # still be used by another one
+            for field in bound:
+                field._unbind()
+            raise
+
+        for field, validator in validators:
+            field.add_validator(validator)
 
         cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
 
-- 
2.43.0


From 09b36bc5c977ba6fa5cd5030235f5b4ed2e950a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 30/33] fix: never add a subclass' validator to a field of its
 base

---
 oblate/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 510f073..2328b92 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -158,6 +158,10 @@ class Schema(metaclass=_SchemaMeta):
                     cls.__fields__[name] = member  # type: ignore
                 elif callable(member) and hasattr(member, '__validator_field__'):
                     field = member.__validator_field__
+                    if isinstance(field, Field) and field._is_bound() and issubclass(cls, field._schema):
+                        # The field of a parent schema, which may have been overridden
+                        # or extended since, stands for this schema's field
+                        field = field._name
                     if isinstance(field, str):
                         field = members.get(field, cls.__fields__.get(field, field))
                     if isinstance(field, Field) and field not in copies and field._is_bound() and \
-- 
2.43.0


From 7479d8a5492f4ffd45f568eac8b65d62bd4c2164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 31/33] fix: a field error that is also a ValueError or
 AssertionError is reported as itself when a validator raises it

---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 8e7f238..47eb764 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -217,7 +217,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             try:
                 validator(context.schema, value, context)
             except (FieldError, AssertionError, ValueError) as err:
-                if isinstance(err, (AssertionError, ValueError)):
+                if not isinstance(err, FieldError):
                     err = FieldError._from_standard_error(err, schema=context.schema, field=self, value=value)
                 errors.append(err)
 
-- 
2.43.0


From c53664501337045259911d22809ff6409b2e1871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 32/33] fix: an error with a list of messages is split even if
 it compares equal to another error

---
 oblate/exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index e6becf7..9fd1ab9 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -199,7 +199,8 @@ class ValidationError(OblateException):
             if not isinstance(error.message, (list, tuple, set)):
                 continue
 
-            self.errors.remove(error)
+            # compared by identity as errors of user code can define equality
+            self.errors = [other for other in self.errors if other is not error]
             for message in error.message:  # type: ignore
                 self.errors.append(error._copy_with(message))
 
-- 
2.43.0


From f910ac9160bb5ea80833e19da56d093efadbf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:27 +0000
Subject: [PATCH 33/33] fix: a validator that unregisters itself while the
 validators run or are walked makes no other one be skipped

---
 oblate/fields/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 47eb764..da7b313 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -213,7 +213,8 @@ class Field(Generic[RawValueT, FinalValueT]):
         validators = self._raw_validators if raw else self._validators
         errors: List[FieldError] = []
 
-        for validator in validators:
+        # A copy is iterated, a validator may remove itself while running
+        for validator in validators.copy():
             try:
                 validator(context.schema, value, context)
             except (FieldError, AssertionError, ValueError) as err:
@@ -403,9 +404,9 @@ class Field(Generic[RawValueT, FinalValueT]):
             validators = self._validators.copy()
             validators.extend(self._raw_validators)
         elif raw:
-            validators = self._raw_validators
+            validators = self._raw_validators.copy()
         else:
-            validators = self._validators
+            validators = self._validators.copy()
 
         for validator in validators:
             yield validator
-- 
2.43.0

