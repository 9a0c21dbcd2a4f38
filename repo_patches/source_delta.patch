From 53f4a33ca53aeb4584c92a855b251b3904a41713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:37 +0000
Subject: [PATCH 01/25] fix: roll back failed updates on any error and set the
 current schema during update

---
 oblate/schema.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..3971e91 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -415,25 +415,31 @@ class Schema(metaclass=_SchemaMeta):
         fields = self.__load_fields__
         errors: List[FieldError] = []
         old_values = self._field_values.copy()
+        schema_token = current_schema.set(self)
 
-        for key, value in data.items():
-            token = current_field_key.set(key)
-            try:
-                field = fields[key]
-            except KeyError:
-                if not ignore_extra:
-                    errors.append(FieldError(f'Invalid or unknown field.'))
-            else:
-                if field.frozen:
-                    raise FrozenError(field)
-                errors.extend(self._process_field_value(field, value))
-            finally:
-                current_field_key.reset(token)
-
-        if errors:
+        try:
+            for key, value in data.items():
+                token = current_field_key.set(key)
+                try:
+                    field = fields[key]
+                except KeyError:
+                    if not ignore_extra:
+                        errors.append(FieldError(f'Invalid or unknown field.'))
+                else:
+                    if field.frozen:
+                        raise FrozenError(field)
+                    errors.extend(self._process_field_value(field, value))
+                finally:
+                    current_field_key.reset(token)
+
+            if errors:
+                raise config.validation_error_cls(errors)
+        except BaseException:
             # fallback to original state in case update fails
             self._field_values = old_values
-            raise config.validation_error_cls(errors)
+            raise
+        finally:
+            current_schema.reset(schema_token)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
-- 
2.43.0


From 3d57cd9cd4cc4a846bd6a0a38368f4005b53add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 02/25] fix: restore the current schema after dumping

---
 oblate/schema.py | 57 +++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 3971e91..772c99c 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -474,36 +474,39 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
+        schema_token = current_schema.set(self)
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-        for name in fields:
-            field = self.__fields__[name]
-            try:
-                value = self._field_values[name]
-            except KeyError:  # pragma: no cover
-                continue
-
-            context = DumpContext(
-                schema=self,
-                field=field,
-                value=value,
-                included_fields=fields,
-            )
-            field_token = current_field_key.set(field.load_key)
-            context_token = current_context.set(context)
-            try:
-                out[field.dump_key] = field.value_dump(value, context)
-            except (ValueError, AssertionError, FieldError) as err:
-                if not isinstance(err, FieldError):
-                    err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
-                errors.append(err)
-            finally:
-                current_field_key.reset(field_token)
-                current_context.reset(context_token)
+        try:
+            for name in fields:
+                field = self.__fields__[name]
+                try:
+                    value = self._field_values[name]
+                except KeyError:  # pragma: no cover
+                    continue
+
+                context = DumpContext(
+                    schema=self,
+                    field=field,
+                    value=value,
+                    included_fields=fields,
+                )
+                field_token = current_field_key.set(field.load_key)
+                context_token = current_context.set(context)
+                try:
+                    out[field.dump_key] = field.value_dump(value, context)
+                except (ValueError, AssertionError, FieldError) as err:
+                    if not isinstance(err, FieldError):
+                        err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
+                    errors.append(err)
+                finally:
+                    current_field_key.reset(field_token)
+                    current_context.reset(context_token)
 
-        if errors:
-            raise config.validation_error_cls(errors)
+            if errors:
+                raise config.validation_error_cls(errors)
+        finally:
+            current_schema.reset(schema_token)
 
         return out
-- 
2.43.0


From fc786df21f5313d3132e630610b3527b82202daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:41 +0000
Subject: [PATCH 03/25] fix: treat None and raw validators alike at
 construction and on update, and always reset the load context

---
 oblate/schema.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 772c99c..8484f03 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -255,28 +255,29 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
-        if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
-                errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
-            return errors
-
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
-            final_value = field.value_load(value, context)
-        except (ValueError, AssertionError, FieldError) as err:
-            if not isinstance(err, FieldError):
-                err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
-            errors.append(err)
-        else:
             if not lazy_validation:
-                validator_errors.extend(field._run_validators(final_value, context, raw=False))
+                validator_errors.extend(field._run_validators(value, context, raw=True))
+
+            if value is None:
+                if not field.none:
+                    errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+                elif not validator_errors:
+                    self._field_values[name] = None
             else:
-                validators.append((field, final_value, context, False))
-            if not validator_errors:
-                self._field_values[name] = final_value
+                try:
+                    final_value = field.value_load(value, context)
+                except (ValueError, AssertionError, FieldError) as err:
+                    if not isinstance(err, FieldError):
+                        err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
+                    errors.append(err)
+                else:
+                    if not lazy_validation:
+                        validator_errors.extend(field._run_validators(final_value, context, raw=False))
+                    else:
+                        validators.append((field, final_value, context, False))
+                    if not validator_errors:
+                        self._field_values[name] = final_value
             errors.extend(validator_errors)
         finally:
             current_context.reset(token)
-- 
2.43.0


From 38ea8987e7a1efe0a4d51451f5c6218c61182ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:11 +0000
Subject: [PATCH 04/25] fix: attribute errors raised on assignment to the load
 key of the field

---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From 6e42ed936043e708ab2fa5715980f5cca1ee8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 05/25] fix: dump None values of Object fields and report
 nested dump errors under the parent field

---
 oblate/fields/nesting.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..0c29c2b 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -22,7 +22,7 @@
 
 from __future__ import annotations
 
-from typing import TYPE_CHECKING, Type, Mapping, TypeVar, Any, Union
+from typing import TYPE_CHECKING, Type, Mapping, Optional, TypeVar, Any, Union
 from oblate.fields.base import Field
 from oblate.schema import Schema
 from oblate.exceptions import FieldError, ValidationError
@@ -114,5 +114,10 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
 
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
-    def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
-        return value.dump()
+    def value_dump(self, value: Optional[SchemaT], context: DumpContext) -> Optional[Mapping[str, Any]]:
+        if value is None:
+            return None
+        try:
+            return value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From 07c192dc99e62e0acdd6a0e1ad289c4c64c46642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 06/25] fix: validate the values of keys marked as Required or
 NotRequired

---
 oblate/type_validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..324b35b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -203,8 +203,7 @@ class TypeValidator:
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, args[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From a35379c3faa58b9914fbe4384e8476bda70eeb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:48 +0000
Subject: [PATCH 07/25] fix: decide requiredness of TypedDict keys by the
 totality of the class declaring them

---
 oblate/type_validation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 324b35b..62fddfc 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -177,6 +177,7 @@ class TypeValidator:
             return False, [f'Must be a {tp.__name__} dictionary']  # pragma: no cover
 
         typehints = get_type_hints(tp, include_extras=True)
+        required_keys = getattr(tp, '__required_keys__', typehints if tp.__total__ else ())
         errors: List[str] = []
 
         for key, value in value.items():  # type: ignore
@@ -191,9 +192,11 @@ class TypeValidator:
 
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
-                # either no marker and total=False -> field is not required
-                # or NotRequired marker and total=True/False -> field is not required
+            if origin is NotRequired:
+                # NotRequired marker and total=True/False -> field is not required
+                continue
+            if origin is not Required and key not in required_keys:
+                # no marker and total=False (in the class declaring the key) -> field is not required
                 continue
 
             errors.append(f'Key {key!r} is required')
-- 
2.43.0


From 266d9d7a900fb341a2dfcb83b20a6d301d3f663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:53 +0000
Subject: [PATCH 08/25] fix: validate tuples given for Sequence types as
 variable length tuples

---
 oblate/type_validation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 62fddfc..8c233c7 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -331,13 +331,11 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_sequence(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        value_tp = type(value)
-        if value_tp is list:
-            return cls._handle_origin_list(value, tp)
-        if value_tp is set:
+        if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
-        if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+        if isinstance(value, tuple):
+            args = get_args(tp)
+            return cls._handle_origin_tuple(value, Tuple[args[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From e64d69e5a1c9fecfb46c522acc041f0f8baedfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 09/25] fix: reject tuples longer than the fixed length of the
 type expression

---
 oblate/type_validation.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 8c233c7..9d12511 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -314,18 +314,15 @@ class TypeValidator:
                     validated = False
                     errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')
         else:
-            for idx, tp in enumerate(args):
-                try:
-                    v = value[idx]  # type: ignore
-                except IndexError:
+            for idx, (v, tp) in enumerate(zip(value, args)):  # type: ignore
+                item_validated, fail_msg = cls._process_value(v, tp)
+                if not item_validated:
                     validated = False
-                    errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
-                    break
-                else:
-                    item_validated, fail_msg = cls._process_value(v, tp)
-                    if not item_validated:
-                        validated = False
-                        errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover
+                    errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')  # pragma: no cover
+
+            if len(value) != len(args):  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
 
         return validated, errors
 
-- 
2.43.0


From 0172441914bde9f4bc9d62a0c3c1777af9ed59f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 10/25] fix: validate Mapping types

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 9d12511..324064a 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -344,6 +344,8 @@ class TypeValidator:
             return cls._handle_origin_sequence(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is list:
             return cls._handle_origin_list(value, tp)
         if origin is set:
@@ -364,7 +366,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From ce3d8bd07944253802a8bddd0888611d7fb35889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 11/25] fix: accept any items for generic types given without
 arguments

---
 oblate/type_validation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 324064a..b526eda 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -233,7 +233,7 @@ class TypeValidator:
         if not isinstance(value, origin):
             return False, [f'Must be a valid {name.lower()}']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any, Any)
         errors: List[str] = []
         validated = True
         ktp = args[0]
@@ -265,7 +265,7 @@ class TypeValidator:
         if not isinstance(value, list):
             return False, [f'Must be a valid list']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any,)
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -283,7 +283,7 @@ class TypeValidator:
         if not isinstance(value, set):
             return False, [f'Must be a valid set']
 
-        args = get_args(tp)
+        args = get_args(tp) or (Any,)
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -301,7 +301,7 @@ class TypeValidator:
         if not isinstance(value, tuple):
             return False, [f'Must be a valid tuple']
 
-        args = get_args(tp)
+        args = (Any, Ellipsis) if tp is Tuple else get_args(tp)
         errors: List[str] = []
         validated = True
 
@@ -331,7 +331,7 @@ class TypeValidator:
         if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
         if isinstance(value, tuple):
-            args = get_args(tp)
+            args = get_args(tp) or (Any,)
             return cls._handle_origin_tuple(value, Tuple[args[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
-- 
2.43.0


From 58372049aa031ee67c712cdcfc2ea78fb39318d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 12/25] fix: accept values of unsupported types that are not
 classes, and None as a type

---
 oblate/type_validation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index b526eda..fba0546 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -226,7 +226,7 @@ class TypeValidator:
             validated, _ = cls._process_value(value, tp)
             if validated:
                 return True, []
-        return False, [f'Type of {value!r} ({type(value).__name__}) is not compatible with types ({", ".join(tp.__name__ for tp in args)})']
+        return False, [f'Type of {value!r} ({type(value).__name__}) is not compatible with types ({", ".join(getattr(tp, "__name__", str(tp)) for tp in args)})']
 
     @classmethod
     def __process_mapping(cls, value: Any, tp: Any, name: str, origin: Any) -> Tuple[bool, List[str]]:
@@ -380,13 +380,21 @@ class TypeValidator:
     def _process_value(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         if tp is Any:
             return cls._handle_type_any(value, tp)
+        if tp is None:
+            tp = type(None)
 
         origin = get_origin(tp)
 
         if origin is None:
             if is_typeddict(tp):
                 return cls._handle_type_typed_dict(value, tp)
-            return isinstance(value, tp), [f'Must be of type {tp.__name__}']
+            try:
+                validated = isinstance(value, tp)
+            except TypeError:
+                # not a class (type variables, forward references, new types etc.)
+                cls._warn_unsupported(tp)
+                return True, []
+            return validated, [f'Must be of type {getattr(tp, "__name__", tp)}']
 
         return cls._handle_origin(value, tp, origin)
 
-- 
2.43.0


From 19009ec872736ef4c4ef089a8119c429a2e005b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 13/25] fix: resolve inherited and overriden fields in the
 method resolution order

---
 oblate/schema.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 8484f03..def0f70 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -137,21 +137,20 @@ class Schema(metaclass=_SchemaMeta):
         # circular import
         from oblate.fields.base import Field
 
-        if hasattr(cls, '__fields__'):
-            # When a schema is subclassed, the fields have to be copied so
-            # the parent schema's fields are not modified
-            cls.__fields__ = cls.__fields__.copy()
-            cls.__load_fields__ = cls.__load_fields__.copy()
-        else:
-            cls.__fields__ = {}
-            cls.__load_fields__ = {}
+        # When a schema is subclassed, the fields have to be copied so
+        # the parent schema's fields are not modified. The bases are walked
+        # in reverse so the fields are overriden in the method resolution order.
+        cls.__fields__ = {}
+        for base in reversed(cls.__mro__[1:]):
+            for name, field in vars(base).get('__fields__', {}).items():
+                if field._schema is base:
+                    cls.__fields__[name] = field
 
         members = vars(cls).copy()
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
                 cls.__fields__[name] = member  # type: ignore
-                cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
@@ -164,6 +163,8 @@ class Schema(metaclass=_SchemaMeta):
 
                 field.add_validator(member)
 
+        cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
+
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
-- 
2.43.0


From 4958cfbeaf25ca1dc4281811e6af184e7ea407bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 14/25] fix: allow validators in a subclass to name a field of
 the parent schema

---
 oblate/schema.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index def0f70..491387f 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -154,10 +154,15 @@ class Schema(metaclass=_SchemaMeta):
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
-                    try:
-                        field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                    field = cls.__dict__.get(field, cls.__fields__.get(field, field))
+                    if isinstance(field, Field) and field._is_bound() and field._schema is not cls:
+                        # Copy the inherited field so the validator is not
+                        # added to the field of the parent schema.
+                        name = field._name
+                        field = field.copy()
+                        field._bind(name, cls)
+                        cls.__fields__[name] = field
+                        setattr(cls, name, field)
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
-- 
2.43.0


From 7967009feecce602fc1490a324701d1cc492a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 15/25] fix: set the documented name attribute of FieldNotSet

---
 oblate/exceptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..2985d2e 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -70,6 +70,7 @@ class FieldNotSet(AttributeError, OblateException):
         self.field = field
         self.schema = schema
         super().__init__(f'Field {field._name!r} has no value set', field._name, schema)
+        self.name = field_name
 
 
 class FrozenError(OblateException):
-- 
2.43.0


From 00b4f299ac4dab57c567c97fc781d20bde4953a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 16/25] fix: keep the step of standard ranges in
 Range.from_standard

---
 oblate/validate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/validate.py b/oblate/validate.py
index ab1a8c0..079d96b 100644
--- a/oblate/validate.py
+++ b/oblate/validate.py
@@ -202,7 +202,9 @@ class Range(Validator[int]):
         would only include the integers accounted by the given standard :func:`range`
         (i.e upper bound not inclusive).
         """
-        return cls(obj.start, obj.stop - 1)
+        self = cls(obj.start, obj.stop - 1)
+        self._range = obj
+        return self
 
 
 class Length(Validator[collections.abc.Sized]):
-- 
2.43.0


From 58d9f949c02b15daac9029e6b42050af296e1d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:49 +0000
Subject: [PATCH 17/25] fix: deserialize the value passed to primitive fields
 instead of the raw value

---
 oblate/fields/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..74f4c37 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -77,7 +77,7 @@ class String(Field[str, str]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: str, context: LoadContext) -> str:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: str, context: DumpContext) -> str:
         return value
@@ -130,7 +130,7 @@ class Integer(Field[int, int]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: int, context: LoadContext) -> int:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: int, context: DumpContext) -> int:
         return value
@@ -218,7 +218,7 @@ class Boolean(Field[bool, bool]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: bool, context: LoadContext) -> bool:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: bool, context: DumpContext) -> bool:
         return value
@@ -271,7 +271,7 @@ class Float(Field[float, float]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: float, context: LoadContext) -> float:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: float, context: DumpContext) -> float:
         return value
-- 
2.43.0


From 665a12aa49028faae192de3c35090d0094112d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 18/25] fix: respect replacement of the global configuration

---
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 9 +++++----
 oblate/type_validation.py | 5 ++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..eeb62ab 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,9 +43,9 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
 
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.contexts import LoadContext, DumpContext
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index 491387f..a738a43 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -38,11 +38,12 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig
 
 import collections.abc
 import inspect
 import copy
+import oblate
 
 if TYPE_CHECKING:
     from oblate.fields.base import Field
@@ -224,7 +225,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -440,7 +441,7 @@ class Schema(metaclass=_SchemaMeta):
                     current_field_key.reset(token)
 
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         except BaseException:
             # fallback to original state in case update fails
             self._field_values = old_values
@@ -512,7 +513,7 @@ class Schema(metaclass=_SchemaMeta):
                     current_context.reset(context_token)
 
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
 
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index fba0546..4e9af3f 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -37,6 +37,7 @@ from typing import (
 from typing_extensions import Required, NotRequired, is_typeddict, get_type_hints
 from oblate.exceptions import OblateException
 
+import oblate
 import types
 import warnings
 import sys
@@ -155,9 +156,7 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
-
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From d0964ee86cc2b9bad6147a9a1c20af51d23e05a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:58 +0000
Subject: [PATCH 19/25] fix: do not override inherited representations of
 schemas and use repr of values in the generated one

---
 oblate/schema.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a738a43..1c9c5fc 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -55,7 +55,7 @@ __all__ = (
 T = TypeVar('T')
 
 def _schema_repr(self: Schema) -> str:
-    attrs = ', '.join((f'{name}={value}' for name, value in self._field_values.items()))  # pragma: no cover
+    attrs = ', '.join((f'{name}={value!r}' for name, value in self._field_values.items()))  # pragma: no cover
     return f'{self.__class__.__name__}({attrs})'  # pragma: no cover
 
 
@@ -171,8 +171,9 @@ class Schema(metaclass=_SchemaMeta):
 
         cls.__load_fields__ = {field.load_key: field for field in cls.__fields__.values()}
 
-        if cls.__config__.add_repr and '__repr__' not in members:
-            cls.__repr__ = _schema_repr  # type: ignore
+        if cls.__repr__ in (object.__repr__, _schema_repr):
+            # Custom implementations, including inherited ones, are not overriden
+            cls.__repr__ = _schema_repr if cls.__config__.add_repr else object.__repr__  # type: ignore
 
     def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         data = self.preprocess_data(data)
-- 
2.43.0


From 525569d814a71f28e17bd997e7eba8516735e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:01 +0000
Subject: [PATCH 20/25] fix: keep the order of errors when flattening sequences
 of messages

---
 oblate/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index 2985d2e..35e5f2a 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -192,7 +192,7 @@ class ValidationError(OblateException):
         The schema this error originates from.
     """
     def __init__(self, errors: List[FieldError]) -> None:
-        self.errors = errors.copy()
+        self.errors: List[FieldError] = []
         self.schema = current_schema.get()
         self._flatten_errors(errors)
         super().__init__(self._make_message())
@@ -200,9 +200,9 @@ class ValidationError(OblateException):
     def _flatten_errors(self, errors: List[FieldError]) -> None:
         for error in errors:
             if not isinstance(error.message, (list, tuple, set)):
+                self.errors.append(error)
                 continue
 
-            self.errors.remove(error)
             for message in error.message:  # type: ignore
                 self.errors.append(error._copy_with(message))
 
-- 
2.43.0


From 2f4cce23b3fbf2a72b8a5c7d99ee6af7d158ce2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:03 +0000
Subject: [PATCH 21/25] fix: render mapping messages of errors as text

---
 oblate/exceptions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index 35e5f2a..5cdb528 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -226,7 +226,7 @@ class ValidationError(OblateException):
 
             builder.append(message)
             for idx, error in enumerate(errors):
-                if isinstance(error.message, dict):
+                if self._is_nested(error.message):
                     builder.append(self._make_message(error.message, level=level+1))  # type: ignore
                     continue
 
@@ -238,6 +238,14 @@ class ValidationError(OblateException):
 
         return '\n│\n' + '\n'.join(builder)
 
+    def _is_nested(self, message: Any) -> bool:
+        # Nested schema errors are mappings of keys to lists of errors; any other
+        # mapping is a regular message provided by the user.
+        return isinstance(message, dict) and bool(message) and all(
+            isinstance(errors, list) and errors and all(isinstance(err, FieldError) for err in errors)  # type: ignore
+            for errors in message.values()  # type: ignore
+        )
+
     def _ensure_string(self, obj: Any) -> Any:
         if isinstance(obj, FieldError):
             return self._ensure_string(obj.message)
-- 
2.43.0


From e83775d23b0bc0e500c94d217d2d5e42a903fafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 22/25] fix: give the offending value itself, not its text, to
 the error of Boolean coercion

---
 oblate/fields/primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 74f4c37..2e2745a 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            text = str(value)
+            if text in self._true_values:
                 return True
-            if value in self._false_values:
+            if text in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From a0c12b7b2d5d66561162bbd14adee25b4a5fb8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 23/25] fix: report values without a text form as coercion
 failures of String and Boolean fields

---
 oblate/fields/primitive.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 2e2745a..065279f 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -57,6 +57,7 @@ class String(Field[str, str]):
         cannot be converted to relevant data type.
     """
     ERR_INVALID_DATATYPE = 'string.invalid_datatype'
+    ERR_COERCION_FAILED  = 'string.coercion_failed'
 
     def __init__(self, strict: bool = True, **kwargs: Any) -> None:
         self.strict = strict
@@ -66,13 +67,18 @@ class String(Field[str, str]):
         if not isinstance(value, str):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            return str(value)
+            try:
+                return str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
         else:
             return value
 
     def _get_default_error_message(self, error_code: Any, context: ErrorContext) -> Union[FieldError, str]:
         if error_code == self.ERR_INVALID_DATATYPE:
             return 'Value must be a string'
+        if error_code == self.ERR_COERCION_FAILED:
+            return f'Failed to coerce {type(context._value).__name__} object to string'
 
         return super()._get_default_error_message(error_code, context)
 
@@ -199,7 +205,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            text = str(value)
+            try:
+                text = str(value)
+            except Exception:
+                raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value) from None
             if text in self._true_values:
                 return True
             if text in self._false_values:
-- 
2.43.0


From 9af7da5dd2e8a645d6f97123e3cb84651891ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 24/25] fix: do not raise for typed dicts with references that
 cannot be resolved

---
 oblate/type_validation.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 4e9af3f..ce24042 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -166,6 +166,22 @@ class TypeValidator:
             stacklevel=2,
         )
 
+    @classmethod
+    def _get_typed_dict_hints(cls, tp: Any) -> Dict[str, Any]:
+        try:
+            return get_type_hints(tp, include_extras=True)
+        except Exception:
+            # One or more keys have references that cannot be resolved, these
+            # are left as-is and treated as unsupported types.
+            hints: Dict[str, Any] = dict(tp.__annotations__)
+            for key, hint in hints.items():
+                namespace = {'__annotations__': {key: hint}, '__module__': tp.__module__}
+                try:
+                    hints[key] = get_type_hints(type(tp.__name__, (), namespace), include_extras=True)[key]
+                except Exception:
+                    continue
+            return hints
+
     @classmethod
     def _handle_type_any(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
         return True, []
@@ -175,7 +191,7 @@ class TypeValidator:
         if not isinstance(value, dict):
             return False, [f'Must be a {tp.__name__} dictionary']  # pragma: no cover
 
-        typehints = get_type_hints(tp, include_extras=True)
+        typehints = cls._get_typed_dict_hints(tp)
         required_keys = getattr(tp, '__required_keys__', typehints if tp.__total__ else ())
         errors: List[str] = []
 
-- 
2.43.0


From f4e5a084a1802d1dadcad84a8afa0a199693bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 25/25] fix: report undeclared keys that are not strings in
 validate_types()

The message of TypeValidationError joined the keys as given, so a value
mapping with a key such as 1 raised TypeError instead of the validation
error.
---
 oblate/type_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index ce24042..85c28ba 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -63,7 +63,7 @@ class TypeValidationError(OblateException):
     """
     def __init__(self, errors: Dict[str, List[str]]) -> None:
         self.errors = errors
-        super().__init__(f'Type validation failed for following keys: {", ".join(errors)}')
+        super().__init__(f'Type validation failed for following keys: {", ".join(map(str, errors))}')
 
 
 def validate_types(
-- 
2.43.0

