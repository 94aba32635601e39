From ea87868622c7bc8f70ee94415b5088a9d1831186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 01/21] fix: set the current schema while Schema.update is
 running

---
 oblate/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index a541326..a827514 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -409,6 +409,13 @@ class Schema(metaclass=_SchemaMeta):
         if self.__config__.frozen:
             raise FrozenError(self)
 
+        token = current_schema.set(self)
+        try:
+            self._update_from_data(data, ignore_extra=ignore_extra)
+        finally:
+            current_schema.reset(token)
+
+    def _update_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         if ignore_extra is MISSING:
             ignore_extra = self.__config__.ignore_extra
 
-- 
2.43.0


From 78857beb61dc7213fa63748cf83bac26be8307a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:53 +0000
Subject: [PATCH 02/21] fix: roll back Schema.update on every exception

---
 oblate/schema.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a827514..6e67db5 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -409,9 +409,14 @@ class Schema(metaclass=_SchemaMeta):
         if self.__config__.frozen:
             raise FrozenError(self)
 
+        old_values = self._field_values.copy()
         token = current_schema.set(self)
         try:
             self._update_from_data(data, ignore_extra=ignore_extra)
+        except BaseException:
+            # fallback to original state in case update fails
+            self._field_values = old_values
+            raise
         finally:
             current_schema.reset(token)
 
@@ -421,7 +426,6 @@ class Schema(metaclass=_SchemaMeta):
 
         fields = self.__load_fields__
         errors: List[FieldError] = []
-        old_values = self._field_values.copy()
 
         for key, value in data.items():
             token = current_field_key.set(key)
@@ -438,8 +442,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            # fallback to original state in case update fails
-            self._field_values = old_values
             raise config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
-- 
2.43.0


From b31f46ef95856dd5861a2640e54ce2f48cf45f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 03/21] fix: restore the current schema after Schema.dump

---
 oblate/schema.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 6e67db5..614838b 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -30,6 +30,7 @@ from typing import (
     List,
     Optional,
     Sequence,
+    Set,
     Tuple,
     Type,
     TypeVar,
@@ -477,7 +478,13 @@ class Schema(metaclass=_SchemaMeta):
         if exclude is not MISSING:
             fields = fields.difference(set(exclude))
 
-        current_schema.set(self)
+        schema_token = current_schema.set(self)
+        try:
+            return self._dump_fields(fields)
+        finally:
+            current_schema.reset(schema_token)
+
+    def _dump_fields(self, fields: Set[str]) -> Dict[str, Any]:
         out: Dict[str, Any] = {}
         errors: List[FieldError] = []
 
-- 
2.43.0


From 57d9996057a0cbef0fbb73b46bc1842bb5f57c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 04/21] fix: restore the current context after processing None
 values and raw validators

---
 oblate/schema.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 614838b..a8d0d5d 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -246,12 +246,25 @@ class Schema(metaclass=_SchemaMeta):
         # using this data. This is done when validators are ran on initialization
         # of schema. (e.g. Schema._prepare_from_data does this)
 
+        context = LoadContext(field=field, value=value, schema=self)
+        token = current_context.set(context)
+        try:
+            return self._load_field_value(field, value, context, validators)
+        finally:
+            current_context.reset(token)
+
+    def _load_field_value(
+            self,
+            field: Field[Any, Any],
+            value: Any,
+            context: LoadContext,
+            validators: Optional[List[Tuple[Field[Any, Any], Any, LoadContext, bool]]] = None,
+        ) -> List[FieldError]:
+
         name = field._name
         lazy_validation = validators is not None
         errors: List[FieldError] = []
         validator_errors: List[FieldError] = []
-        context = LoadContext(field=field, value=value, schema=self)
-        token = current_context.set(context)
 
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
@@ -279,8 +292,6 @@ class Schema(metaclass=_SchemaMeta):
             if not validator_errors:
                 self._field_values[name] = final_value
             errors.extend(validator_errors)
-        finally:
-            current_context.reset(token)
 
         return errors
 
-- 
2.43.0


From 97c979c14ce3c47309b07b80434503792f086084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 05/21] fix: run raw validators on update and assignment of
 None and keep their errors when loading fails

---
 oblate/schema.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index a8d0d5d..55b1a92 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -269,21 +269,24 @@ class Schema(metaclass=_SchemaMeta):
         if field._raw_validators and lazy_validation:
             validators.append((field, value, context, True))
 
+        if not lazy_validation:
+            validator_errors.extend(field._run_validators(value, context, raw=True))
+
         if value is None:
-            if field.none:
-                self._field_values[name] = None
-            else:
+            if not field.none:
                 errors.append(field._call_format_error(field.ERR_NONE_DISALLOWED, self, None))
+            elif not validator_errors:
+                self._field_values[name] = None
+            errors.extend(validator_errors)
             return errors
 
-        if not lazy_validation:
-            validator_errors.extend(field._run_validators(value, context, raw=True))
         try:
             final_value = field.value_load(value, context)
         except (ValueError, AssertionError, FieldError) as err:
             if not isinstance(err, FieldError):
                 err = FieldError._from_standard_error(err, schema=self, field=field, value=value)
             errors.append(err)
+            errors.extend(validator_errors)
         else:
             if not lazy_validation:
                 validator_errors.extend(field._run_validators(final_value, context, raw=False))
-- 
2.43.0


From 17b10c48677fbe272a19d0fee60e37d88a11f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:22 +0000
Subject: [PATCH 06/21] fix: validate the type inside Required and NotRequired

---
 oblate/type_validation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index e1cfe3c..c96a23b 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -202,9 +202,7 @@ class TypeValidator:
 
     @classmethod
     def _handle_origin_required(cls, value: Any, tp: Any) -> Tuple[bool, List[str]]:
-        args = get_args(tp)
-        origin = get_origin(args[0])
-        return cls._handle_origin(value, tp, origin)
+        return cls._process_value(value, get_args(tp)[0])
 
     _handle_origin_not_required = _handle_origin_required
 
-- 
2.43.0


From d8fb887dc00f2d5e5947bcd6dbeccb53bf837e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:24 +0000
Subject: [PATCH 07/21] fix: decide whether a TypedDict key is required from
 its own declaration

---
 oblate/type_validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index c96a23b..fc3d625 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -191,8 +191,8 @@ class TypeValidator:
 
         for key, value in typehints.items():
             origin = get_origin(value)
-            if (origin is None and not tp.__total__) or (origin is NotRequired):
-                # either no marker and total=False -> field is not required
+            if (origin is not Required and key not in tp.__required_keys__) or (origin is NotRequired):
+                # either no marker and declared with total=False -> field is not required
                 # or NotRequired marker and total=True/False -> field is not required
                 continue
 
-- 
2.43.0


From 35e83379fa9f5dd97577df5e847c92af712ee91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 08/21] fix: validate every item of a tuple against Sequence[T]

---
 oblate/type_validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index fc3d625..dc54c58 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -330,10 +330,10 @@ class TypeValidator:
         value_tp = type(value)
         if value_tp is list:
             return cls._handle_origin_list(value, tp)
-        if value_tp is set:
+        if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
-        if value_tp is tuple:
-            return cls._handle_origin_tuple(value, tp)
+        if isinstance(value, tuple):
+            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 41131b56497669b6b0037856ec2079634863e09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 09/21] fix: reject tuples longer than the fixed-length tuple
 type

---
 oblate/type_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index dc54c58..0e04895 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -310,6 +310,10 @@ class TypeValidator:
                     validated = False
                     errors.append(f'Tuple item at index {idx}: {fail_msg[0]}')
         else:
+            if len(value) > len(args):  # type: ignore
+                validated = False
+                errors.append(f'Tuple length must be {len(args)} (current length: {len(value)})')  # type: ignore
+
             for idx, tp in enumerate(args):
                 try:
                     v = value[idx]  # type: ignore
-- 
2.43.0


From c777c4abccd4fa1f45a4c0ae4298db18d97af9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 10/21] fix: accept any elements for unparametrized container
 types

---
 oblate/type_validation.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 0e04895..3edeaf3 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -230,6 +230,10 @@ class TypeValidator:
             return False, [f'Must be a valid {name.lower()}']
 
         args = get_args(tp)
+        if not args:
+            # bare Dict or Mapping -> any key and value
+            return True, []
+
         errors: List[str] = []
         validated = True
         ktp = args[0]
@@ -262,6 +266,10 @@ class TypeValidator:
             return False, [f'Must be a valid list']
 
         args = get_args(tp)
+        if not args:
+            # bare List -> any item
+            return True, []
+
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -280,6 +288,10 @@ class TypeValidator:
             return False, [f'Must be a valid set']
 
         args = get_args(tp)
+        if not args:
+            # bare Set -> any item
+            return True, []
+
         errors: List[str] = []
         validated = True
         vtp = args[0]
@@ -298,6 +310,10 @@ class TypeValidator:
             return False, [f'Must be a valid tuple']
 
         args = get_args(tp)
+        if tp is Tuple:
+            # bare Tuple -> tuple of any length and type
+            return True, []
+
         errors: List[str] = []
         validated = True
 
@@ -337,7 +353,8 @@ class TypeValidator:
         if isinstance(value, set):
             return cls._handle_origin_set(value, tp)
         if isinstance(value, tuple):
-            return cls._handle_origin_tuple(value, Tuple[get_args(tp)[0], ...])
+            args = get_args(tp)
+            return cls._handle_origin_tuple(value, Tuple[args[0], ...] if args else Tuple)
 
         return cls._handle_origin_list(value, tp)  # pragma: no cover
 
-- 
2.43.0


From 930c018bbe0a7b66af2785f05172ec2d302b22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 11/21] fix: validate Mapping types as documented

---
 oblate/type_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 3edeaf3..4c0c127 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -366,6 +366,8 @@ class TypeValidator:
             return cls._handle_origin_sequence(value, tp)
         if origin is dict:
             return cls._handle_origin_dict(value, tp)
+        if origin is collections.abc.Mapping:
+            return cls._handle_origin_mapping(value, tp)
         if origin is list:
             return cls._handle_origin_list(value, tp)
         if origin is set:
@@ -386,7 +388,7 @@ class TypeValidator:
             return cls._handle_origin_required(value, tp)
         if origin is NotRequired:
             return cls._handle_origin_not_required(value, tp)
-        if origin in (list, set, dict, tuple, collections.abc.Sequence):
+        if origin in (list, set, dict, tuple, collections.abc.Sequence, collections.abc.Mapping):
             return cls._process_struct(value, tp)
         if origin is Literal:
             return cls._handle_origin_literal(value, tp)
-- 
2.43.0


From d53ae66a917e3063b0272a187fd7ee104582b4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 12/21] fix: dump None held by an Object field as None

---
 oblate/fields/nesting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index d29bcdd..90d5174 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -115,4 +115,6 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
         raise self._call_format_error(self.ERR_INVALID_DATATYPE, context.schema, value)
 
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
+        if value is None:
+            return None  # type: ignore
         return value.dump()
-- 
2.43.0


From 09c3935aa313815b235f414772f9808a32857edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:21 +0000
Subject: [PATCH 13/21] fix: report a failed dump of a nested schema as error
 of the Object field

---
 oblate/fields/nesting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oblate/fields/nesting.py b/oblate/fields/nesting.py
index 90d5174..e88bdfe 100644
--- a/oblate/fields/nesting.py
+++ b/oblate/fields/nesting.py
@@ -117,4 +117,7 @@ class Object(Field[Union[Mapping[str, Any], SchemaT], SchemaT]):
     def value_dump(self, value: SchemaT, context: DumpContext) -> Mapping[str, Any]:
         if value is None:
             return None  # type: ignore
-        return value.dump()
+        try:
+            return value.dump()
+        except ValidationError as err:
+            raise FieldError(err._raw_std(include_message=False)) from None
-- 
2.43.0


From 6e1671b45c19ae88f754eb30218fd33119e2de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:24 +0000
Subject: [PATCH 14/21] fix: remove the load key of an inherited field when a
 subclass overrides the field

---
 oblate/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/oblate/schema.py b/oblate/schema.py
index 55b1a92..1eca2b9 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -151,6 +151,10 @@ class Schema(metaclass=_SchemaMeta):
         for name, member in members.items():
             if isinstance(member, Field):
                 member._bind(name, cls)
+                inherited = cls.__fields__.get(name)
+                if inherited is not None and cls.__load_fields__.get(inherited.load_key) is inherited:
+                    # the field is being overriden so its load key is no longer valid
+                    del cls.__load_fields__[inherited.load_key]
                 cls.__fields__[name] = member  # type: ignore
                 cls.__load_fields__[member.load_key] = member  # type: ignore
             elif callable(member) and hasattr(member, '__validator_field__'):
-- 
2.43.0


From cef08caff7ee3fb0799e4ca079f8f389a3b9f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 15/21] fix: support validators for inherited fields without
 modifying the parent schema

---
 oblate/schema.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index 1eca2b9..72a33da 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -160,18 +160,39 @@ class Schema(metaclass=_SchemaMeta):
             elif callable(member) and hasattr(member, '__validator_field__'):
                 field = member.__validator_field__
                 if isinstance(field, str):
-                    try:
-                        field = members[field]
-                    except KeyError:  # pragma: no cover
-                        pass
+                    field = members.get(field, cls.__fields__.get(field, field))
                 if not isinstance(field, Field):
                     raise TypeError(f'Validator {member.__name__} got an unknown field {field}')  # pragma: no cover
 
+                if field._is_bound() and field._schema is not cls and issubclass(cls, field._schema):
+                    # Inherited field, validators have to be added on a copy of it
+                    # so the parent schema's field is not modified
+                    field = cls._get_own_field(field._name, members)
+
                 field.add_validator(member)
 
         if cls.__config__.add_repr and '__repr__' not in members:
             cls.__repr__ = _schema_repr  # type: ignore
 
+    @classmethod
+    def _get_own_field(cls, name: str, members: Mapping[str, Any]) -> Field[Any, Any]:
+        # circular import
+        from oblate.fields.base import Field
+
+        field = members.get(name)
+        if isinstance(field, Field):
+            return field
+
+        field = cls.__fields__[name]
+        if field._schema is not cls:
+            field = field.copy()
+            field._bind(name, cls)
+            setattr(cls, name, field)
+            cls.__fields__[name] = field
+            cls.__load_fields__[field.load_key] = field
+
+        return field
+
     def _prepare_from_data(self, data: Mapping[str, Any], *, ignore_extra: bool = MISSING) -> None:
         data = self.preprocess_data(data)
         if not isinstance(data, collections.abc.Mapping):
-- 
2.43.0


From 4bbe4a039c1c493b5f10a112ada8aa57fe820b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:28 +0000
Subject: [PATCH 16/21] fix: deserialize the given value in primitive fields
 rather than the raw value of context

---
 oblate/fields/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index fd0c7e1..74f4c37 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -77,7 +77,7 @@ class String(Field[str, str]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: str, context: LoadContext) -> str:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: str, context: DumpContext) -> str:
         return value
@@ -130,7 +130,7 @@ class Integer(Field[int, int]):
         return super()._get_default_error_message(error_code, context)
 
     def value_load(self, value: int, context: LoadContext) -> int:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: int, context: DumpContext) -> int:
         return value
@@ -218,7 +218,7 @@ class Boolean(Field[bool, bool]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: bool, context: LoadContext) -> bool:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: bool, context: DumpContext) -> bool:
         return value
@@ -271,7 +271,7 @@ class Float(Field[float, float]):
         return super()._get_default_error_message(error_code, context)  # pragma: no cover
 
     def value_load(self, value: float, context: LoadContext) -> float:
-        return self._process_value(context.value, context)
+        return self._process_value(value, context)
 
     def value_dump(self, value: float, context: DumpContext) -> float:
         return value
-- 
2.43.0


From 7af62886ff05ccc24147af88b28e02d3653a9089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 17/21] fix: report assignment errors under the load key of
 field

---
 oblate/fields/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 6b35350..3f08b77 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -186,7 +186,7 @@ class Field(Generic[RawValueT, FinalValueT]):
             raise FrozenError(self)
 
         schema_token = current_schema.set(instance)
-        field_name = current_field_key.set(self._name)
+        field_name = current_field_key.set(self.load_key)
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-- 
2.43.0


From 26b82159509223382e3e8811f90dc512179810d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:33 +0000
Subject: [PATCH 18/21] fix: pass the raw value to format_error when boolean
 coercion fails

---
 oblate/fields/primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oblate/fields/primitive.py b/oblate/fields/primitive.py
index 74f4c37..2e2745a 100644
--- a/oblate/fields/primitive.py
+++ b/oblate/fields/primitive.py
@@ -199,10 +199,10 @@ class Boolean(Field[bool, bool]):
         if not isinstance(value, bool):
             if self.strict:
                 raise self._call_format_error(self.ERR_INVALID_DATATYPE, ctx.schema, value)
-            value = str(value)
-            if value in self._true_values:
+            text = str(value)
+            if text in self._true_values:
                 return True
-            if value in self._false_values:
+            if text in self._false_values:
                 return False
             else:
                 raise self._call_format_error(self.ERR_COERCION_FAILED, ctx.schema, value)
-- 
2.43.0


From 939734664b9e48c32621224aac6fafac01496b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:35 +0000
Subject: [PATCH 19/21] fix: do not fail on field errors with an arbitrary
 dictionary as message

---
 oblate/exceptions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/oblate/exceptions.py b/oblate/exceptions.py
index ed89236..de4d865 100644
--- a/oblate/exceptions.py
+++ b/oblate/exceptions.py
@@ -205,6 +205,13 @@ class ValidationError(OblateException):
             for message in error.message:  # type: ignore
                 self.errors.append(error._copy_with(message))
 
+    def _is_nested(self, message: Any) -> bool:
+        # Dictionaries given by user as error message are not nested field errors
+        return isinstance(message, dict) and all(
+            isinstance(errors, list) and all(isinstance(error, FieldError) for error in errors)  # type: ignore
+            for errors in message.values()  # type: ignore
+        )
+
     def _make_message(self, field_errors: Optional[Dict[str, List[FieldError]]] = None, level: int = 0) -> str:
         if field_errors is None:
             field_errors = self._raw_std(include_message=False)
@@ -225,7 +232,7 @@ class ValidationError(OblateException):
 
             builder.append(message)
             for idx, error in enumerate(errors):
-                if isinstance(error.message, dict):
+                if self._is_nested(error.message):
                     builder.append(self._make_message(error.message, level=level+1))  # type: ignore
                     continue
 
-- 
2.43.0


From 4efc600aee097d54f2bc5060568a1f7ac2e17b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 20/21] fix: respect replacing oblate.config with another
 GlobalConfig

---
 oblate/fields/base.py     | 4 ++--
 oblate/schema.py          | 9 +++++----
 oblate/type_validation.py | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/oblate/fields/base.py b/oblate/fields/base.py
index 3f08b77..7542419 100644
--- a/oblate/fields/base.py
+++ b/oblate/fields/base.py
@@ -43,8 +43,8 @@ from oblate.validate import Validator, ValidatorCallbackT, InputT
 from oblate.utils import MISSING, current_field_key, current_schema
 from oblate.exceptions import FieldError, FrozenError
 from oblate.contexts import ErrorContext
-from oblate.configs import config
 
+import oblate
 import copy
 
 if TYPE_CHECKING:
@@ -190,7 +190,7 @@ class Field(Generic[RawValueT, FinalValueT]):
         try:
             errors = instance._process_field_value(self, value)
             if errors:
-                raise config.validation_error_cls(errors)
+                raise oblate.config.validation_error_cls(errors)
         finally:
             current_schema.reset(schema_token)
             current_field_key.reset(field_name)
diff --git a/oblate/schema.py b/oblate/schema.py
index 72a33da..c3b8a71 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -39,8 +39,9 @@ from typing_extensions import Self
 from oblate.contexts import SchemaContext, LoadContext, DumpContext
 from oblate.utils import MISSING, current_field_key, current_context, current_schema
 from oblate.exceptions import FieldError, FieldNotSet, FrozenError
-from oblate.configs import config, SchemaConfig
+from oblate.configs import SchemaConfig
 
+import oblate
 import collections.abc
 import inspect
 import copy
@@ -244,7 +245,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_schema.reset(schema_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         self._context._initialized = True
         self.__schema_post_init__()
@@ -482,7 +483,7 @@ class Schema(metaclass=_SchemaMeta):
                 current_field_key.reset(token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
     def dump(self, *, include: Sequence[str] = MISSING, exclude: Sequence[str] = MISSING) -> Dict[str, Any]:
         """Serializes the schema to raw form.
@@ -553,6 +554,6 @@ class Schema(metaclass=_SchemaMeta):
                 current_context.reset(context_token)
 
         if errors:
-            raise config.validation_error_cls(errors)
+            raise oblate.config.validation_error_cls(errors)
 
         return out
diff --git a/oblate/type_validation.py b/oblate/type_validation.py
index 4c0c127..6231bab 100644
--- a/oblate/type_validation.py
+++ b/oblate/type_validation.py
@@ -155,9 +155,9 @@ class TypeValidator:
 
     @classmethod
     def _warn_unsupported(cls, tp: Any) -> None:
-        from oblate.configs import config  # circular import
+        import oblate  # circular import
 
-        if tp in cls._warnings_issued or not config.warn_unsupported_types:
+        if tp in cls._warnings_issued or not oblate.config.warn_unsupported_types:
             return  # pragma: no cover
 
         cls._warnings_issued.add(tp)
-- 
2.43.0


From 67c6a6ca8aaba33a29731d23d0da0d4fa7fc3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 21/21] fix: do not add validators to a parent's field when the
 class body reuses it

---
 oblate/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oblate/schema.py b/oblate/schema.py
index c3b8a71..145a158 100644
--- a/oblate/schema.py
+++ b/oblate/schema.py
@@ -181,7 +181,7 @@ class Schema(metaclass=_SchemaMeta):
         from oblate.fields.base import Field
 
         field = members.get(name)
-        if isinstance(field, Field):
+        if isinstance(field, Field) and (not field._is_bound() or field._schema is cls):
             return field
 
         field = cls.__fields__[name]
-- 
2.43.0

