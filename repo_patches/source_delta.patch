From 152f31e9928e8ebe8cedeccbcb6d3dd5624f7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:51 +0000
Subject: [PATCH 01/14] fix: mapping element serialization of None values

A None mapping raised TypeError under skip_empty and produced an empty element
under exclude_none.
---
 pydantic_xml/serializers/factories/mapping.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index e8856c8..a43e021 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -106,6 +106,9 @@ class ElementSerializer(AttributesSerializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None and (skip_empty or exclude_none):
+            return element
+
         if skip_empty and len(value) == 0:
             return element
 
-- 
2.43.0


From 14107387976d2360ee8efd8bdc524ac2e5063529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:04 +0000
Subject: [PATCH 02/14] fix: tagged union serialization of None values

---
 pydantic_xml/serializers/factories/tagged_union.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydantic_xml/serializers/factories/tagged_union.py b/pydantic_xml/serializers/factories/tagged_union.py
index 5f17e43..22652ab 100644
--- a/pydantic_xml/serializers/factories/tagged_union.py
+++ b/pydantic_xml/serializers/factories/tagged_union.py
@@ -76,6 +76,9 @@ class ModelSerializer(Serializer):
             exclude_none: bool = False,
             exclude_unset: bool = False,
     ) -> Optional[XmlElementWriter]:
+        if value is None:
+            return None
+
         if (tag := encoded.get(self._discriminator)) and (serializer := self._inner_serializers[tag]):
             return serializer.serialize(
                 element, value, encoded, skip_empty=skip_empty, exclude_none=exclude_none, exclude_unset=exclude_unset,
-- 
2.43.0


From 9261ef146dea1e70b640f059cb904ddd0d87c443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:08 +0000
Subject: [PATCH 03/14] fix: model union serialization drops instances of
 choice subclasses

---
 pydantic_xml/serializers/factories/union.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index 67ad02f..e577f1b 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -115,6 +115,16 @@ class ModelSerializer(Serializer):
                     exclude_unset=exclude_unset,
                 )
 
+        # the value could be an instance of a choice subclass
+        for serializer in self._inner_serializers:
+            if isinstance(value, serializer.model):
+                return serializer.serialize(
+                    element, value, encoded,
+                    skip_empty=skip_empty,
+                    exclude_none=exclude_none,
+                    exclude_unset=exclude_unset,
+                )
+
         return None
 
     def deserialize(
-- 
2.43.0


From 5c38f6d60a780c7ae715e87ea26bced3a4662556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:27 +0000
Subject: [PATCH 04/14] fix: nearest namespace map takes precedence over
 farther ones

---
 pydantic_xml/serializers/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 40a4e53..59b0ca0 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -154,8 +154,8 @@ class Serializer(abc.ABC):
         def parent_nsmap(self) -> Optional[NsMap]:
             if parent_ctx := self.parent_ctx:
                 return {
-                    **(parent_ctx.entity_nsmap or {}),
                     **(parent_ctx.parent_nsmap or {}),
+                    **(parent_ctx.entity_nsmap or {}),
                 }
 
             return None
-- 
2.43.0


From d35dbb7277e0fa5c1a7d4224a92f17df468e6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:47 +0000
Subject: [PATCH 05/14] fix: encode mapping values the same way as other
 primitives

Booleans were written as 'True'/'False' and None as 'None'.
---
 pydantic_xml/serializers/factories/mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index a43e021..9a35389 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -4,7 +4,7 @@ from pydantic_core import core_schema as pcs
 
 from pydantic_xml import errors
 from pydantic_xml.element import XmlElementReader, XmlElementWriter
-from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer
+from pydantic_xml.serializers.serializer import TYPE_FAMILY, SchemaTypeFamily, SearchMode, Serializer, encode_primitive
 from pydantic_xml.typedefs import EntityLocation, Location, NsMap
 from pydantic_xml.utils import QName, merge_nsmaps, select_ns
 
@@ -40,7 +40,7 @@ class AttributesSerializer(Serializer):
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
         element.set_attributes({
-            QName(tag=attr, ns=ns).uri: str(enc)
+            QName(tag=attr, ns=ns).uri: encode_primitive(enc)
             for attr, enc in encoded.items()
         })
 
-- 
2.43.0


From dbf53d639925882eb4efcfd4d2c5c6467bf34889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:52 +0000
Subject: [PATCH 06/14] fix: make custom field validator/serializer precedence
 deterministic

The attributes were iterated in a set order so that the winner among several
validators/serializers of the same field depended on the string hash seed.
---
 pydantic_xml/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/model.py b/pydantic_xml/model.py
index 2473bff..f40a0c4 100644
--- a/pydantic_xml/model.py
+++ b/pydantic_xml/model.py
@@ -129,7 +129,10 @@ class XmlModelMeta(ModelMetaclass):
         # though we want to skip any BaseModel attributes, as these can never be field
         # serializers/validators, and getting certain pydantic fields
         # may cause recursion errors for recursive / self-referential models
-        for attr_name in set(dir(cls)) - set(dir(BaseModel)):
+        # the attributes are processed from the base classes to the derived ones (in the definition order)
+        # so that the most derived validator/serializer of a field takes precedence
+        attr_names = set(dir(cls)) - set(dir(BaseModel))
+        for attr_name in (name for base in reversed(cls.__mro__) for name in vars(base) if name in attr_names):
             if func := getattr(cls, attr_name, None):
                 if fields := getattr(func, '__xml_field_serializer__', None):
                     for field in fields:
-- 
2.43.0


From 01ee5bef5791e4aef7048f59917e5d5375b95a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:35 +0000
Subject: [PATCH 07/14] fix: union skips exactly the element its failed choice
 was found at

In ordered and unordered modes the cursor was moved by one element only, so that
the same invalid element of a collection was found and reported again.
---
 pydantic_xml/serializers/factories/union.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/serializers/factories/union.py b/pydantic_xml/serializers/factories/union.py
index e577f1b..1c24c83 100644
--- a/pydantic_xml/serializers/factories/union.py
+++ b/pydantic_xml/serializers/factories/union.py
@@ -143,6 +143,7 @@ class ModelSerializer(Serializer):
             return None
 
         union_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
+        failed_snapshot: Any = None
         result: Any = None
         for serializer in self._inner_serializers:
             snapshot = element.create_snapshot()
@@ -158,9 +159,12 @@ class ModelSerializer(Serializer):
                     return result
             except pd.ValidationError as e:
                 union_errors[e.title] = e
+                if failed_snapshot is None:
+                    failed_snapshot = snapshot
 
-        if union_errors:
-            element.step_forward()
+        if failed_snapshot is not None:
+            # skips the element that has been found by the first failed choice
+            element.apply_snapshot(failed_snapshot)
             raise utils.into_validation_error(
                 title=self._model_name, errors_map=union_errors, hide_input=self._hide_input_in_errors,
             )
-- 
2.43.0


From 93b2880fcea098bdb6863d0bb0788ca8e27009e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:15 +0000
Subject: [PATCH 08/14] fix: keep the text following an xml comment (lxml)

---
 pydantic_xml/element/native/lxml.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index 433f553..e60eb36 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -1,5 +1,5 @@
 import typing
-from typing import Optional, Union
+from typing import List, Optional, Union
 
 from lxml import etree
 
@@ -18,19 +18,27 @@ ElementT = etree._Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text: Optional[str] = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text following a skipped node is a continuation of the preceding one
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes={
                 force_str(name): force_str(value)  # transformation is safe since lxml bytes values are ASCII compatible
                 for name, value in element.attrib.items()
             },
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
             sourceline=typing.cast(int, element.sourceline) if element.sourceline is not None else -1,
         )
 
-- 
2.43.0


From 586ccf4e36be7426e7a6d8384ee915d97d67f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 09/14] fix: ignore processing instructions as comments (lxml)

---
 pydantic_xml/element/native/lxml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydantic_xml/element/native/lxml.py b/pydantic_xml/element/native/lxml.py
index e60eb36..ad676da 100644
--- a/pydantic_xml/element/native/lxml.py
+++ b/pydantic_xml/element/native/lxml.py
@@ -21,7 +21,7 @@ class XmlElement(BaseXmlElement[ElementT]):
         text: Optional[str] = element.text
         elements: List['XmlElement'] = []
         for sub_element in element:
-            if not is_xml_comment(sub_element):
+            if not is_xml_comment(sub_element) and not is_xml_instruction(sub_element):
                 elements.append(XmlElement.from_native(sub_element))
             elif sub_element.tail:
                 # the text following a skipped node is a continuation of the preceding one
@@ -71,3 +71,7 @@ def force_str(val: Union[str, bytes]) -> str:
 
 def is_xml_comment(element: ElementT) -> bool:
     return isinstance(element, etree._Comment)
+
+
+def is_xml_instruction(element: ElementT) -> bool:
+    return isinstance(element, etree._ProcessingInstruction)
-- 
2.43.0


From 70dc3b318eba664fc3c263d44000049187288f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:38 +0000
Subject: [PATCH 10/14] fix: skip comments and processing instructions
 preserving their tails (std)

---
 pydantic_xml/element/native/std.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pydantic_xml/element/native/std.py b/pydantic_xml/element/native/std.py
index f55f22c..99f3685 100644
--- a/pydantic_xml/element/native/std.py
+++ b/pydantic_xml/element/native/std.py
@@ -1,5 +1,5 @@
 import xml.etree.ElementTree as etree
-from typing import Optional
+from typing import List, Optional
 
 from pydantic_xml.element import XmlElement as BaseXmlElement
 from pydantic_xml.typedefs import NsMap
@@ -16,16 +16,24 @@ ElementT = etree.Element
 class XmlElement(BaseXmlElement[ElementT]):
     @classmethod
     def from_native(cls, element: ElementT) -> 'XmlElement':
+        text: Optional[str] = element.text
+        elements: List['XmlElement'] = []
+        for sub_element in element:
+            if not is_xml_comment(sub_element) and not is_xml_instruction(sub_element):
+                elements.append(XmlElement.from_native(sub_element))
+            elif sub_element.tail:
+                # the text following a skipped node is a continuation of the preceding one
+                if elements:
+                    elements[-1]._state.tail = (elements[-1]._state.tail or '') + sub_element.tail
+                else:
+                    text = (text or '') + sub_element.tail
+
         return cls(
             tag=element.tag,
-            text=element.text,
+            text=text,
             tail=element.tail,
             attributes=dict(element.attrib),
-            elements=[
-                XmlElement.from_native(sub_element)
-                for sub_element in element
-                if not is_xml_comment(sub_element)
-            ],
+            elements=elements,
         )
 
     def to_native(self) -> ElementT:
@@ -45,3 +53,7 @@ class XmlElement(BaseXmlElement[ElementT]):
 
 def is_xml_comment(element: ElementT) -> bool:
     return element.tag is etree.Comment  # type: ignore[comparison-overlap]
+
+
+def is_xml_instruction(element: ElementT) -> bool:
+    return element.tag is etree.ProcessingInstruction  # type: ignore[comparison-overlap]
-- 
2.43.0


From bc824f5a0111f6e85c14aab28a0c05c84bce8c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 11/14] fix: report the right source lines in validation errors

A nested model shared its parent source map although its locations are relative,
so the parent entries were overwritten; aliased fields, nested root models and
model level errors were not found in the map and reported at line -1.
---
 pydantic_xml/serializers/factories/model.py | 6 +++++-
 pydantic_xml/utils.py                       | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydantic_xml/serializers/factories/model.py b/pydantic_xml/serializers/factories/model.py
index ed5bca9..5d04c1d 100644
--- a/pydantic_xml/serializers/factories/model.py
+++ b/pydantic_xml/serializers/factories/model.py
@@ -207,11 +207,13 @@ class ModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # model validation error locations are relative to the model
+        sourcemap = {(): element.get_sourceline()}
         result: Dict[str, Any] = {}
         field_errors: Dict[Union[None, str, int], pd.ValidationError] = {}
         for field_name, field_serializer in self._field_serializers.items():
             try:
-                loc = (field_name,)
+                loc = (self._fields_validation_aliases.get(field_name, field_name),)
                 sourcemap[loc] = element.get_sourceline()
                 if custom_field_validator := self._model.__xml_field_validators__.get(field_name):
                     field_value = custom_field_validator(self._model, element, field_name)
@@ -334,6 +336,8 @@ class RootModelSerializer(BaseModelSerializer):
         if element is None:
             return None
 
+        # model validation error locations are relative to the model
+        sourcemap, loc = {(): element.get_sourceline()}, ()
         try:
             result = self._root_serializer.deserialize(
                 element, context=context, sourcemap=sourcemap, loc=loc, empty_as_string=empty_as_string,
diff --git a/pydantic_xml/utils.py b/pydantic_xml/utils.py
index bb6e2aa..90b89ca 100644
--- a/pydantic_xml/utils.py
+++ b/pydantic_xml/utils.py
@@ -137,8 +137,8 @@ def set_validation_error_sourceline(
 ) -> pd.ValidationError:
     line_errors: List[pdc.InitErrorDetails] = []
     for error in err.errors():
-        loc, sourceline = error['loc'], -1
-        while loc and (sourceline := sourcemap.get(loc, sourceline)) == -1:
+        loc = error['loc']
+        while (sourceline := sourcemap.get(loc, -1)) == -1 and loc:
             loc = tuple(loc[:-1])
 
         line_errors.append(
-- 
2.43.0


From a9fae196cd4273ed116255c8d73b3d7637e673c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 12/14] fix: wrapped fields ignored their alias

---
 pydantic_xml/fields.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydantic_xml/fields.py b/pydantic_xml/fields.py
index a262a7d..13cec4d 100644
--- a/pydantic_xml/fields.py
+++ b/pydantic_xml/fields.py
@@ -108,11 +108,14 @@ _Unset: Any = pdc.PydanticUndefined
 
 
 def prepare_field_kwargs(kwargs: Dict[str, Any]) -> Dict[str, Any]:
+    if (alias := kwargs.get('alias')) in (None, pdc.PydanticUndefined):
+        return kwargs
+
     if kwargs.get('serialization_alias') in (None, pdc.PydanticUndefined):
-        kwargs['serialization_alias'] = kwargs.get('alias')
+        kwargs['serialization_alias'] = alias
 
     if kwargs.get('validation_alias') in (None, pdc.PydanticUndefined):
-        kwargs['validation_alias'] = kwargs.get('alias')
+        kwargs['validation_alias'] = alias
 
     return kwargs
 
@@ -199,6 +202,8 @@ def wrapped(
     :param kwargs: pydantic field arguments. See :py:class:`pydantic.Field`
     """
 
+    kwargs = prepare_field_kwargs(kwargs)
+
     if entity is None:
         wrapped_entity_info = None
         field_info = pd.fields.FieldInfo(default=default, default_factory=default_factory, **kwargs)
-- 
2.43.0


From a37653427ceaaecc4d6d2c8ae9d3c1413ff5b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 13/14] fix: a mapping bound to the element's own attributes
 dropped the attributes written before it

---
 pydantic_xml/serializers/factories/mapping.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/factories/mapping.py b/pydantic_xml/serializers/factories/mapping.py
index 9a35389..44e670c 100644
--- a/pydantic_xml/serializers/factories/mapping.py
+++ b/pydantic_xml/serializers/factories/mapping.py
@@ -39,10 +39,8 @@ class AttributesSerializer(Serializer):
             return element
 
         ns = self._nsmap.get(self._ns) if self._namespaced_attrs and self._ns and self._nsmap else None
-        element.set_attributes({
-            QName(tag=attr, ns=ns).uri: encode_primitive(enc)
-            for attr, enc in encoded.items()
-        })
+        for attr, enc in encoded.items():
+            element.set_attribute(QName(tag=attr, ns=ns).uri, encode_primitive(enc))
 
         return element
 
-- 
2.43.0


From d370586c182081927ba88e214eb293f335f0fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 14/14] fix: a plain validator without an inner type was
 refused with a KeyError instead of a model error

---
 pydantic_xml/serializers/serializer.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pydantic_xml/serializers/serializer.py b/pydantic_xml/serializers/serializer.py
index 59b0ca0..c6c81fd 100644
--- a/pydantic_xml/serializers/serializer.py
+++ b/pydantic_xml/serializers/serializer.py
@@ -189,10 +189,9 @@ class Serializer(abc.ABC):
             elif schema_type == 'nullable':
                 ctx = ctx.replace(optional=True)
 
-            if schema_type == 'function-plain':
-                inner_schema = schema['serialization']
-            else:
-                inner_schema = schema['schema']
+            inner_schema = schema.get('serialization' if schema_type == 'function-plain' else 'schema')
+            if inner_schema is None:
+                raise ModelError(f"type {schema_type} is not supported")
 
             return cls.preprocess_schema(inner_schema, ctx)
 
-- 
2.43.0

