From 958cfb7f33783ca610c457c15bca63251ae631cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 01/38] fix: accept keyword arguments named self in expects,
 all_set and bind

---
 paradigm/_core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..a351895 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -276,18 +276,18 @@ class BaseSignature(ABC):
     __slots__ = ()
 
     @abstractmethod
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """
         Checks if the signature has no unspecified parameters left
         with given arguments.
         """
 
     @abstractmethod
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """Checks if the signature accepts given arguments."""
 
     @abstractmethod
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
         """Binds given arguments to the signature."""
 
 
@@ -304,7 +304,7 @@ class PlainSignature(BaseSignature):
     def returns(self) -> t.Any:
         return self._returns
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (
                 parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
@@ -341,7 +341,7 @@ class PlainSignature(BaseSignature):
         return (all_parameters_are_optional(rest_positionals_only)
                 and all_parameters_are_optional(rest_keywords))
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
                        + parameters_by_kind[
@@ -366,7 +366,7 @@ class PlainSignature(BaseSignature):
         )
         return not unexpected_keyword_arguments_found
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         return PlainSignature(
                 *_bind_keywords(
@@ -496,15 +496,15 @@ class OverloadedSignature(BaseSignature):
     def signatures(self) -> t.Sequence[PlainSignature]:
         return self._signatures
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.all_set(*args, **kwargs)
                    for signature in self._signatures)
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.expects(*args, **kwargs)
                    for signature in self._signatures)
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> Signature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> Signature:
         signatures = [signature.bind(*args, **kwargs)
                       for signature in self._signatures
                       if signature.expects(*args, **kwargs)]
-- 
2.43.0


From 1393c5cbbe5a5560c995063a08fb369199f3d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 02/38] fix: reject keywords for positionally filled parameters
 of signatures with **kwargs

---
 paradigm/_core/models.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index a351895..da85db0 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -316,6 +316,10 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if any(parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and parameter.name in kwargs
+               for parameter in positionals[:len(args)]):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +357,10 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if any(parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and parameter.name in kwargs
+               for parameter in positionals[:len(args)]):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
-- 
2.43.0


From 37de80e5174c0b5057a6a01403b9481e611456e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 03/38] fix: bind keywords named as filled positional-only
 parameters into **kwargs

---
 paradigm/_core/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da85db0..03c89c3 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -384,6 +384,11 @@ class PlainSignature(BaseSignature):
                                         parameters_by_kind[
                                             ParameterKind.VARIADIC_POSITIONAL
                                         ]
+                                ),
+                                has_variadic_keyword=bool(
+                                        parameters_by_kind[
+                                            ParameterKind.VARIADIC_KEYWORD
+                                        ]
                                 )
                         ),
                         kwargs,
@@ -587,7 +592,8 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                       args: t.Tuple[_Arg, ...],
                       kwargs: t.Dict[str, _KwArg],
                       *,
-                      has_variadic: bool) -> t.Tuple[Parameter, ...]:
+                      has_variadic: bool,
+                      has_variadic_keyword: bool) -> t.Tuple[Parameter, ...]:
     def is_positionable(parameter: Parameter) -> bool:
         return (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                 or parameter.kind is ParameterKind.POSITIONAL_ONLY)
@@ -605,7 +611,7 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
+            elif not has_variadic_keyword:
                 raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
                                 'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
-- 
2.43.0


From 14ed417c33a2a09238cb20f9b95a24d6f0ec8c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 04/38] fix: use the bound value as the default of optional
 parameters bound by keyword

---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 03c89c3..adfdb1f 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -646,11 +646,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From d3b1b6999f6a361232e558c63ac7d721637452de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 05/38] fix: compare built-in generic aliases and bare typing
 aliases by structure

---
 paradigm/_core/annotated.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..fe228f0 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -22,6 +22,7 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 
 
 @are_equal.register(GenericAlias)
+@are_equal.register(type(t.List))
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
@@ -29,6 +30,8 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_origin, right_origin = (to_origin(left) or left,
                                  to_origin(right) or right)
     return (left_origin is right_origin
+            and (getattr(left, '__unpacked__', False)
+                 is getattr(right, '__unpacked__', False))
             and len(left_args) == len(right_args)
             and ((all(any(are_equal(left_arg, right_arg)
                           for right_arg in right_args)
@@ -40,6 +43,10 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                  else all(map(are_equal, left_args, right_args))))
 
 
+if sys.version_info >= (3, 9):
+    are_equal.register(types.GenericAlias, are_equal.dispatch(type))
+
+
 @are_equal.register(abc.Sequence)
 def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
     return (type(left) is type(right)
-- 
2.43.0


From 24af755d6b3ed28e61073b2799a0095b10e52b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 06/38] fix: compare members of X | Y unions regardless of
 their order

---
 paradigm/_core/annotated.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index fe228f0..df404b9 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -11,6 +11,7 @@ from typing_extensions import (Literal,
 
 _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
+UnionType: t.Any = getattr(types, 'UnionType', None)
 del _T
 
 
@@ -39,7 +40,9 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                   and all(any(are_equal(left_arg, right_arg)
                               for left_arg in left_args)
                           for right_arg in right_args))
-                 if (left_origin is t.Union or left_origin is Literal)
+                 if (left_origin is t.Union
+                     or left_origin is Literal
+                     or left_origin is UnionType)
                  else all(map(are_equal, left_args, right_args))))
 
 
@@ -80,7 +83,7 @@ if sys.version_info < (3, 10):
         return (type(left) is type(right)
                 and are_equal(left_supertype, right_supertype))
 else:
-    are_equal.register(types.UnionType, are_equal.dispatch(type))
+    are_equal.register(UnionType, are_equal.dispatch(type))
 
 
     @are_equal.register(t.NewType)
-- 
2.43.0


From 0b97d6e568868c10fb3798554d85bdf5de88ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:15 +0000
Subject: [PATCH 07/38] fix: hash parameters and signatures consistently with
 their equality

---
 paradigm/_core/models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index adfdb1f..551b318 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,7 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,9 +216,7 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
-                     self._kind, self._name))
+        return hash((self._has_default, self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -470,7 +468,7 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        return hash(self._parameters)
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From 00dc2accd8aa5a7a9843ba6a37e79dc0c23b04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:16 +0000
Subject: [PATCH 08/38] fix: make reprs of built-in generic aliases and X | Y
 unions evaluable

---
 paradigm/_core/annotated.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index df404b9..7847823 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -160,6 +160,19 @@ def _(value: type) -> str:
                 else result)
 
 
+if sys.version_info >= (3, 9):
+    @to_repr.register(types.GenericAlias)
+    def _(value: t.Any) -> str:
+        return (('*' if getattr(value, '__unpacked__', False) else '')
+                + f'{to_repr(to_origin(value))}'
+                f'[{", ".join(map(to_repr, to_arguments(value))) or "()"}]')
+
+if sys.version_info >= (3, 10):
+    @to_repr.register(UnionType)
+    def _(value: t.Any) -> str:
+        return ' | '.join(map(to_repr, to_arguments(value)))
+
+
 @to_repr.register(GenericAlias)
 def _(value: GenericAlias) -> str:
     origin = to_origin(value)
-- 
2.43.0


From 0cce510102a4f105625c88b20350edca80bc783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 09/38] fix: let stub parameters be passed by keyword unless
 declared positional-only

---
 paradigm/_core/signatures.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..83dab81 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -6,7 +6,8 @@ import types as _types
 import typing as _t
 from functools import (partial as _partial,
                        singledispatch as _singledispatch)
-from itertools import zip_longest as _zip_longest
+from itertools import (chain as _chain,
+                       zip_longest as _zip_longest)
 
 from typing_extensions import Self as _Self
 
@@ -612,15 +613,32 @@ def _to_positional_parameters(
         module_path: _catalog.Path,
         parent_path: _catalog.Path
 ) -> _t.List[_Parameter]:
+    parameters_asts = [*signature_ast.posonlyargs, *signature_ast.args]
+    positionals_only_count = max(
+            _chain([len(signature_ast.posonlyargs)],
+                  [index
+                   for index, parameter_ast in enumerate(parameters_asts,
+                                                         start=1)
+                   if _is_positional_only_name(parameter_ast.arg)])
+    )
     # double-reversing since parameters with default arguments go last
     parameters_with_defaults_ast: _t.List[
         _t.Tuple[_ast.arg, _t.Optional[_ast.expr]]
-    ] = list(_zip_longest(reversed(signature_ast.args),
+    ] = list(_zip_longest(reversed(parameters_asts),
                           signature_ast.defaults[::-1]))[::-1]
-    kind = _ParameterKind.POSITIONAL_ONLY
     return [_parameter_from_ast_node(parameter_ast, default_ast, module_path,
-                                     parent_path, kind)
-            for parameter_ast, default_ast in parameters_with_defaults_ast]
+                                     parent_path,
+                                     (_ParameterKind.POSITIONAL_ONLY
+                                      if index < positionals_only_count
+                                      else
+                                      _ParameterKind.POSITIONAL_OR_KEYWORD))
+            for index, (parameter_ast, default_ast) in enumerate(
+                    parameters_with_defaults_ast
+            )]
+
+
+def _is_positional_only_name(value: str) -> bool:
+    return value.startswith('__') and not value.endswith('__')
 
 
 def _to_variadic_keyword_parameter(
-- 
2.43.0


From 6c128493d5747dfb65bf8d64fcb20d8242d7c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 10/38] fix: drop receivers of methods bound to classes and
 leave parameters of static methods alone

---
 paradigm/_core/signatures.py | 41 +++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 83dab81..5a58ebc 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -330,15 +330,27 @@ def _parameters_from(
     ))
     if isinstance(callable_, type):
         del result[0]
-    elif any(_is_classmethod(decorator_node, module_path, parent_path)
+    elif any(_is_builtin_decorator(decorator_node, staticmethod, module_path,
+                                   parent_path)
              for decorator_node in ast_node.decorator_list):
-        result[0] = _RequiredParameter(annotation=_t.Type[_Self],
-                                       kind=_ParameterKind.POSITIONAL_ONLY,
-                                       name=result[0].name)
+        pass
+    elif any(_is_builtin_decorator(decorator_node, classmethod, module_path,
+                                   parent_path)
+             for decorator_node in ast_node.decorator_list):
+        if _is_bound_to_class(callable_):
+            del result[0]
+        else:
+            result[0] = _RequiredParameter(annotation=_t.Type[_Self],
+                                           kind=_ParameterKind.POSITIONAL_ONLY,
+                                           name=result[0].name)
     elif _stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS:
-        result[0] = _RequiredParameter(annotation=_Self,
-                                       kind=_ParameterKind.POSITIONAL_ONLY,
-                                       name=result[0].name)
+        if (_is_bound_to_class(callable_)
+                and ast_node.name != object.__new__.__name__):
+            del result[0]
+        else:
+            result[0] = _RequiredParameter(annotation=_Self,
+                                           kind=_ParameterKind.POSITIONAL_ONLY,
+                                           name=result[0].name)
     return result
 
 
@@ -360,21 +372,26 @@ def _returns_annotation_from(
                                                  parent_path, {})))
 
 
-def _is_classmethod(
+def _is_bound_to_class(callable_: _t.Callable[..., _t.Any]) -> bool:
+    return isinstance(getattr(callable_, '__self__', None), type)
+
+
+def _is_builtin_decorator(
         expression_node: _ast.expr,
+        decorator: _t.Type[_t.Any],
         module_path: _catalog.Path,
         parent_path: _catalog.Path,
         *,
-        classmethod_qualified_path: _catalog.QualifiedPath
-        = (_catalog.module_path_from_module(_builtins),
-           _catalog.path_from_string(classmethod.__qualname__)),
+        builtins_module_path: _catalog.Path
+        = _catalog.module_path_from_module(_builtins)
 ) -> bool:
     maybe_path = _conversion.to_maybe_path(expression_node)
     return (maybe_path is not None
             and _scoping.resolve_object_path(
                     module_path, parent_path, maybe_path, _stubs.definitions,
                     _stubs.references, _stubs.submodules, _stubs.superclasses
-            ) == classmethod_qualified_path)
+            ) == (builtins_module_path,
+                  _catalog.path_from_string(decorator.__qualname__)))
 
 
 class _SignatureNotFound(Exception):
-- 
2.43.0


From 2df695cd0792257ecee22c2043f4105718c81be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 11/38] fix: support slot wrappers bound to classes

---
 paradigm/_core/signatures.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 5a58ebc..2560a88 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -82,7 +82,6 @@ def _(_callable: _types.MethodType) -> _Signature:
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
     self = _callable.__self__
-    assert not isinstance(self, type), _callable
     try:
         return (_from_callable(getattr(type(self), _callable.__name__))
                 .bind(self))
-- 
2.43.0


From 5af4af9dedbd97cb3bc9356c3c4ad1394fc8faf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 12/38] fix: find initializers and constructors inherited in
 stubs

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 2560a88..72d21d0 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -515,8 +515,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From 04b11ce4fcb87144e65602c21b30b38ee77b8732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 13/38] fix: register constructors of named tuples described in
 stubs

---
 paradigm/_core/stubs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..3c86b13 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -301,7 +301,10 @@ if _reload_cache:
                         constructor_node = (
                             _named_tuple_to_constructor_ast_node(node)
                         )
-                        self._add_ast_node((class_name,), constructor_node)
+                        constructor_path = (class_name, constructor_node.name)
+                        self._add_ast_node(constructor_path, constructor_node)
+                        self._add_ast_node_kind(constructor_path,
+                                                _NodeKind.FUNCTION)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
-- 
2.43.0


From 754e40306d744e99597e0833d7b2b3787ae7993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 14/38] fix: search initializers and constructors in the method
 resolution order

---
 paradigm/_core/signatures.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 72d21d0..c7e6a9b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -527,13 +527,21 @@ def _to_class_builder_qualified_path(
 def _to_mro(module_path: _catalog.Path,
             object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
     yield (module_path, object_path)
-    try:
-        bases = _stubs.superclasses[module_path][object_path]
-    except KeyError:
-        return
-    else:
-        for base_module_path, base_object_path in bases:
-            yield from _to_mro(base_module_path, base_object_path)
+    bases = _stubs.superclasses.get(module_path, {}).get(object_path, [])
+    # C3 linearization
+    sequences = [*[list(_to_mro(base_module_path, base_object_path))
+                   for base_module_path, base_object_path in bases],
+                 list(bases)]
+    while any(sequences):
+        candidates = [sequence[0] for sequence in sequences if sequence]
+        candidate = next((candidate
+                          for candidate in candidates
+                          if not any(candidate in sequence[1:]
+                                     for sequence in sequences)),
+                         candidates[0])
+        yield candidate
+        sequences = [[path for path in sequence if path != candidate]
+                     for sequence in sequences]
 
 
 def _value_has_qualified_path(value: _t.Any,
-- 
2.43.0


From 90729fe3fdec280580535eaf2a67d6e987458b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 15/38] fix: leave bases of generics intact when specializing
 them in stubs

---
 paradigm/_core/stubs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 3c86b13..fb60f0a 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -817,7 +817,9 @@ if _reload_cache:
                     base_base_module_path: _catalog.Path
                     base_base_object_path: _catalog.Path
                     if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
+                        base_base_node = specialize(
+                                _deepcopy(generic_base)
+                        )
                         base_base_name = _serialization.to_identifier(
                                 base_base_node
                         )
-- 
2.43.0


From 57549715a61283e71ee86ee4424be1e5744afd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 16/38] fix: compare and render parameter specifications by
 structure

---
 paradigm/_core/annotated.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 7847823..d71d118 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -57,7 +57,7 @@ def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
             and all(map(are_equal, left, right)))
 
 
-@are_equal.register(ParamSpec)
+@are_equal.register(type(ParamSpec('_P')))
 def _(left: ParamSpec, right: t.Any) -> bool:
     return (type(left) is type(right)
             and left.__name__ == right.__name__
@@ -194,10 +194,11 @@ def _(value: GenericAlias) -> str:
                         else f'{value.__module__}.{value._name}[()]')))
 
 
+@to_repr.register(type(ParamSpec('_P')))
 @to_repr.register(t.TypeVar)
-def _(value: t.TypeVar) -> str:
+def _(value: t.Union[ParamSpec, t.TypeVar]) -> str:
     arguments = [repr(value.__name__)]
-    arguments.extend(map(to_repr, value.__constraints__))
+    arguments.extend(map(to_repr, getattr(value, '__constraints__', ())))
     if value.__bound__ is not None:
         arguments.append(f'bound={to_repr(value.__bound__)}')
     if value.__contravariant__:
-- 
2.43.0


From 784f005242dc93b70f496cbd4929398b947a300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 17/38] fix: obtain signatures of bound methods from what they
 are bound of

---
 paradigm/_core/signatures.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index c7e6a9b..d1bdf43 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -48,8 +48,7 @@ def _(
     try:
         return ((_from_callable(_callable)
                  if isinstance(_callable.__self__, type)
-                 else (_from_callable(getattr(type(_callable.__self__),
-                                              _callable.__name__))
+                 else (_from_callable(_to_underlying_descriptor(_callable))
                        .bind(_callable.__self__)))
                 if (_callable.__self__ is not None
                     and not isinstance(_callable.__self__, _types.ModuleType))
@@ -69,11 +68,7 @@ def _(_callable: _types.FunctionType) -> _Signature:
 @from_callable.register(_types.MethodType)
 def _(_callable: _types.MethodType) -> _Signature:
     try:
-        return (_from_callable(_callable)
-                if isinstance(_callable.__self__, type)
-                else (_from_callable(getattr(type(_callable.__self__),
-                                             _callable.__name__))
-                      .bind(_callable.__self__)))
+        return _from_callable(_callable.__func__).bind(_callable.__self__)
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -81,10 +76,9 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    self = _callable.__self__
     try:
-        return (_from_callable(getattr(type(self), _callable.__name__))
-                .bind(self))
+        return (_from_callable(_to_underlying_descriptor(_callable))
+                .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -393,6 +387,20 @@ def _is_builtin_decorator(
                   _catalog.path_from_string(decorator.__qualname__)))
 
 
+def _to_underlying_descriptor(
+        value: _t.Union[_types.BuiltinMethodType, _types.MethodWrapperType]
+) -> _t.Any:
+    cls, name = type(value.__self__), value.__name__
+    # may be overridden (e.g. if bound with `super`)
+    return next((candidate
+                 for candidate in [vars(base).get(name)
+                                   for base in cls.__mro__]
+                 if (isinstance(candidate, (_types.MethodDescriptorType,
+                                            _types.WrapperDescriptorType))
+                     and candidate.__get__(value.__self__, cls) == value)),
+                getattr(cls, name))
+
+
 class _SignatureNotFound(Exception):
     pass
 
-- 
2.43.0


From 42ba995b7eb6021267e4a22afb2aaab1ee918cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 18/38] fix: resolve attributes of classes in the method
 resolution order

---
 paradigm/_core/scoping.py    | 69 ++++++++++++++++++++++++------------
 paradigm/_core/signatures.py | 27 +++-----------
 2 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..ab794b5 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -45,6 +45,28 @@ def contains_object_path(
         return True
 
 
+def to_superclasses_paths(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
+) -> t.Iterable[catalog.QualifiedPath]:
+    bases = modules_superclasses.get(module_path, {}).get(object_path, [])
+    # C3 linearization
+    sequences = [*[[base, *to_superclasses_paths(*base, modules_superclasses)]
+                   for base in bases],
+                 list(bases)]
+    while any(sequences):
+        candidates = [sequence[0] for sequence in sequences if sequence]
+        candidate = next((candidate
+                          for candidate in candidates
+                          if not any(candidate in sequence[1:]
+                                     for sequence in sequences)),
+                         candidates[0])
+        yield candidate
+        sequences = [[path for path in sequence if path != candidate]
+                     for sequence in sequences]
+
+
 def resolve_object_path(
         module_path: catalog.Path,
         parent_path: catalog.Path,
@@ -72,35 +94,38 @@ def resolve_object_path(
                 modules_superclasses, *visited_modules_paths
         )
     elif object_path[0] in module_definitions:
-        module_superclasses, scope = (
-            modules_superclasses.get(module_path, {}),
-            module_definitions[object_path[0]]
-        )
+        scope = module_definitions[object_path[0]]
         for index, sub_name in enumerate(object_path[1:],
                                          start=1):
             if sub_name in scope:
                 scope = scope[sub_name]
             else:
                 sub_path = object_path[:index]
-                try:
-                    sub_path_superclasses = module_superclasses[sub_path]
-                except KeyError:
-                    pass
-                else:
-                    for (
+                for superclass_path in to_superclasses_paths(
+                        module_path, sub_path, modules_superclasses
+                ):
+                    try:
+                        (
                             superclass_module_path, superclass_object_path
-                    ) in sub_path_superclasses:
-                        try:
-                            return resolve_object_path(
-                                    superclass_module_path, (),
-                                    superclass_object_path
-                                    + object_path[index:],
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
-                            )
-                        except ObjectNotFound:
-                            continue
+                        ) = resolve_object_path(
+                                superclass_path[0], (), superclass_path[1],
+                                modules_definitions, modules_references,
+                                modules_submodules, modules_superclasses,
+                                *visited_modules_paths, module_path
+                        )
+                    except ObjectNotFound:
+                        continue
+                    if scope_contains_path(
+                            modules_definitions[superclass_module_path],
+                            (*superclass_object_path, sub_name)
+                    ):
+                        return resolve_object_path(
+                                superclass_module_path, (),
+                                superclass_object_path + object_path[index:],
+                                modules_definitions, modules_references,
+                                modules_submodules, modules_superclasses,
+                                *visited_modules_paths, module_path
+                        )
                 if object_path[0] != object.__name__:
                     return resolve_object_path(
                             _builtins_module_path, (),
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index d1bdf43..f3b3826 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -520,8 +520,11 @@ def _to_class_builder_qualified_path(
         constructor_name: str = object.__new__.__name__,
         initializer_name: str = object.__init__.__name__
 ) -> _catalog.QualifiedPath:
-    for base_module_path, base_object_path in _to_mro(module_path,
-                                                      object_path):
+    for base_module_path, base_object_path in [
+        (module_path, object_path),
+        *_scoping.to_superclasses_paths(module_path, object_path,
+                                        _stubs.superclasses)
+    ]:
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
         constructor_path = (*base_object_path, constructor_name)
         initializer_path = (*base_object_path, initializer_name)
@@ -532,26 +535,6 @@ def _to_class_builder_qualified_path(
     return object_builder_qualified_path
 
 
-def _to_mro(module_path: _catalog.Path,
-            object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
-    yield (module_path, object_path)
-    bases = _stubs.superclasses.get(module_path, {}).get(object_path, [])
-    # C3 linearization
-    sequences = [*[list(_to_mro(base_module_path, base_object_path))
-                   for base_module_path, base_object_path in bases],
-                 list(bases)]
-    while any(sequences):
-        candidates = [sequence[0] for sequence in sequences if sequence]
-        candidate = next((candidate
-                          for candidate in candidates
-                          if not any(candidate in sequence[1:]
-                                     for sequence in sequences)),
-                         candidates[0])
-        yield candidate
-        sequences = [[path for path in sequence if path != candidate]
-                     for sequence in sequences]
-
-
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From b230dec33801a5ad2f8e407c4dd38e39b701c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 19/38] fix: builtins are neither exported by star imports nor
 attributes of modules

---
 paradigm/_core/scoping.py | 41 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index ab794b5..6135337 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -45,6 +45,28 @@ def contains_object_path(
         return True
 
 
+def is_builtin_name(
+        name: str,
+        modules_definitions: t.Mapping[catalog.Path, Scope],
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        *,
+        _builtins_module_path: catalog.Path
+        = catalog.module_path_from_module(builtins)
+) -> bool:
+    if name in modules_definitions[_builtins_module_path]:
+        return True
+    try:
+        referent_module_path, _ = (
+            modules_references[_builtins_module_path][(name,)]
+        )
+    except KeyError:
+        return False
+    else:
+        # aliases of builtins are builtins themselves,
+        # while objects imported there are not
+        return referent_module_path == _builtins_module_path
+
+
 def to_superclasses_paths(
         module_path: catalog.Path,
         object_path: catalog.Path,
@@ -76,6 +98,7 @@ def resolve_object_path(
         modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
         *visited_modules_paths: catalog.Path,
+        _builtins_are_visible: bool = True,
         _builtins_module_path: catalog.Path
         = catalog.module_path_from_module(builtins)
 ) -> catalog.QualifiedPath:
@@ -145,7 +168,8 @@ def resolve_object_path(
                             sub_module_path, (), object_path,
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path
+                            *visited_modules_paths, module_path,
+                            _builtins_are_visible=False
                     )
                 except ObjectNotFound:
                     continue
@@ -182,9 +206,16 @@ def resolve_object_path(
                         + object_path[len(object_path) - offset:],
                         modules_definitions, modules_references,
                         modules_submodules, modules_superclasses,
-                        *visited_modules_paths, module_path
+                        *visited_modules_paths, module_path,
+                        # attributes of modules are never builtins
+                        _builtins_are_visible=bool(referent_object_path)
                 )
-        if scope_contains_path(modules_definitions[_builtins_module_path],
-                               object_path):
-            return _builtins_module_path, object_path
+        if (_builtins_are_visible
+                and is_builtin_name(object_path[0], modules_definitions,
+                                    modules_references)):
+            return resolve_object_path(
+                    _builtins_module_path, (), object_path,
+                    modules_definitions, modules_references,
+                    modules_submodules, modules_superclasses
+            )
         raise ObjectNotFound((module_path, object_path))
-- 
2.43.0


From f4a571ae66fda7dded51e6f2c385815892c7d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:37 +0000
Subject: [PATCH 20/38] fix: parser of stubs handles cyclic star imports

---
 paradigm/_core/stubs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index fb60f0a..d723e19 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -515,7 +515,8 @@ if _reload_cache:
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
             ],
-            *,
+            *visited_submodules_paths: _catalog.Path,
+            _builtins_are_visible: bool = True,
             _builtins_module_path: _catalog.Path
             = _catalog.module_path_from_module(_builtins)
     ) -> _catalog.QualifiedPath:
@@ -533,6 +534,8 @@ if _reload_cache:
             return module_path, object_path
         else:
             for sub_module_path in modules_submodules.get(module_path, []):
+                if sub_module_path in visited_submodules_paths:
+                    continue
                 try:
                     return _resolve_object_path(
                             sub_module_path, (), object_path,
@@ -540,7 +543,9 @@ if _reload_cache:
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
                             visited_modules_paths, classes_bases,
-                            generics_parameters_paths
+                            generics_parameters_paths,
+                            *visited_submodules_paths, module_path,
+                            _builtins_are_visible=False
                     )
                 except _ObjectNotFound:
                     continue
@@ -557,9 +562,9 @@ if _reload_cache:
                 return (referent_module_name,
                         (referent_object_path
                          + object_path[len(object_path) - offset:]))
-        if _scoping.scope_contains_path(
-                modules_definitions[_builtins_module_path], object_path
-        ):
+        if (_builtins_are_visible
+                and _scoping.is_builtin_name(first_name, modules_definitions,
+                                             modules_references)):
             return _builtins_module_path, object_path
         raise _ObjectNotFound(object_path)
 
-- 
2.43.0


From db4c0cbfb1859098b12418a66b85936c678f0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 21/38] fix: names of modules importing each other are resolved
 or reported as not found

---
 paradigm/_core/scoping.py | 50 +++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 6135337..7066f46 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -97,7 +97,7 @@ def resolve_object_path(
         modules_references: t.Mapping[catalog.Path, ModuleReferences],
         modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
-        *visited_modules_paths: catalog.Path,
+        *visited_qualified_paths: catalog.QualifiedPath,
         _builtins_are_visible: bool = True,
         _builtins_module_path: catalog.Path
         = catalog.module_path_from_module(builtins)
@@ -114,9 +114,13 @@ def resolve_object_path(
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, *visited_modules_paths
+                modules_superclasses, *visited_qualified_paths
         )
-    elif object_path[0] in module_definitions:
+    elif (module_path, object_path) in visited_qualified_paths:
+        # modules importing from each other never define the object
+        raise ObjectNotFound((module_path, object_path))
+    visited_qualified_paths += ((module_path, object_path),)
+    if object_path[0] in module_definitions:
         scope = module_definitions[object_path[0]]
         for index, sub_name in enumerate(object_path[1:],
                                          start=1):
@@ -134,7 +138,7 @@ def resolve_object_path(
                                 superclass_path[0], (), superclass_path[1],
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
+                                *visited_qualified_paths
                         )
                     except ObjectNotFound:
                         continue
@@ -147,7 +151,7 @@ def resolve_object_path(
                                 superclass_object_path + object_path[index:],
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
+                                *visited_qualified_paths
                         )
                 if object_path[0] != object.__name__:
                     return resolve_object_path(
@@ -155,24 +159,23 @@ def resolve_object_path(
                             (object.__name__,) + object_path[index:],
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses,
-                            *visited_modules_paths
+                            *visited_qualified_paths
                     )
                 else:
                     raise ObjectNotFound((module_path, object_path))
         return (module_path, object_path)
     else:
         for sub_module_path in modules_submodules.get(module_path, []):
-            if sub_module_path not in visited_modules_paths:
-                try:
-                    return resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path,
-                            _builtins_are_visible=False
-                    )
-                except ObjectNotFound:
-                    continue
+            try:
+                return resolve_object_path(
+                        sub_module_path, (), object_path,
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses,
+                        *visited_qualified_paths,
+                        _builtins_are_visible=False
+                )
+            except ObjectNotFound:
+                continue
         module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
@@ -189,26 +192,23 @@ def resolve_object_path(
                                 referent_module_path, (), referent_object_path,
                                 modules_definitions, modules_references,
                                 modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
+                                *visited_qualified_paths,
+                                _builtins_are_visible=False
                         )
                     )
                 except ObjectNotFound:
-                    assert (len(referent_object_path) == 1), (module_path,
-                                                              object_path)
+                    # not an object, but a submodule
                     referent_module_path += referent_object_path
                     referent_object_path = ()
-                    assert (
-                            referent_module_path in modules_definitions
-                    ), (module_path, object_path)
                 return resolve_object_path(
                         referent_module_path, (),
                         referent_object_path
                         + object_path[len(object_path) - offset:],
                         modules_definitions, modules_references,
                         modules_submodules, modules_superclasses,
-                        *visited_modules_paths, module_path,
+                        *visited_qualified_paths,
                         # attributes of modules are never builtins
-                        _builtins_are_visible=bool(referent_object_path)
+                        _builtins_are_visible=False
                 )
         if (_builtins_are_visible
                 and is_builtin_name(object_path[0], modules_definitions,
-- 
2.43.0


From d24522dfa8420a351b8ca930468f92c3b1410476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 22/38] fix: aliases defined in bodies of classes belong to
 their classes

---
 paradigm/_core/scoping.py | 89 ++++++++++++++++++++++++---------------
 paradigm/_core/stubs.py   | 12 +++---
 2 files changed, 61 insertions(+), 40 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 7066f46..ed6f2d8 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -109,8 +109,11 @@ def resolve_object_path(
     if not object_path:
         return (module_path, object_path)
     assert scope_contains_path(module_definitions, parent_path)
-    if (parent_path and scope_contains_path(module_definitions,
-                                            (*parent_path, object_path[0]))):
+    module_references = modules_references[module_path]
+    if (parent_path
+        and (scope_contains_path(module_definitions,
+                                 (*parent_path, object_path[0]))
+             or (*parent_path, object_path[0]) in module_references)):
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
@@ -124,10 +127,18 @@ def resolve_object_path(
         scope = module_definitions[object_path[0]]
         for index, sub_name in enumerate(object_path[1:],
                                          start=1):
+            sub_path = object_path[:index]
             if sub_name in scope:
                 scope = scope[sub_name]
+            elif (*sub_path, sub_name) in module_references:
+                # alias defined in the body of a class
+                return _resolve_reference(
+                        module_references[(*sub_path, sub_name)],
+                        object_path[index + 1:], modules_definitions,
+                        modules_references, modules_submodules,
+                        modules_superclasses, *visited_qualified_paths
+                )
             else:
-                sub_path = object_path[:index]
                 for superclass_path in to_superclasses_paths(
                         module_path, sub_path, modules_superclasses
                 ):
@@ -142,10 +153,13 @@ def resolve_object_path(
                         )
                     except ObjectNotFound:
                         continue
-                    if scope_contains_path(
+                    superclass_sub_path = (*superclass_object_path, sub_name)
+                    if (scope_contains_path(
                             modules_definitions[superclass_module_path],
-                            (*superclass_object_path, sub_name)
-                    ):
+                            superclass_sub_path
+                    )
+                            or (superclass_sub_path
+                                in modules_references[superclass_module_path])):
                         return resolve_object_path(
                                 superclass_module_path, (),
                                 superclass_object_path + object_path[index:],
@@ -176,39 +190,15 @@ def resolve_object_path(
                 )
             except ObjectNotFound:
                 continue
-        module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
-            try:
-                referent_module_path, referent_object_path = module_references[
-                    sub_object_path
-                ]
-            except KeyError:
-                continue
-            else:
-                try:
-                    referent_module_path, referent_object_path = (
-                        resolve_object_path(
-                                referent_module_path, (), referent_object_path,
-                                modules_definitions, modules_references,
-                                modules_submodules, modules_superclasses,
-                                *visited_qualified_paths,
-                                _builtins_are_visible=False
-                        )
-                    )
-                except ObjectNotFound:
-                    # not an object, but a submodule
-                    referent_module_path += referent_object_path
-                    referent_object_path = ()
-                return resolve_object_path(
-                        referent_module_path, (),
-                        referent_object_path
-                        + object_path[len(object_path) - offset:],
+            if sub_object_path in module_references:
+                return _resolve_reference(
+                        module_references[sub_object_path],
+                        object_path[len(object_path) - offset:],
                         modules_definitions, modules_references,
                         modules_submodules, modules_superclasses,
-                        *visited_qualified_paths,
-                        # attributes of modules are never builtins
-                        _builtins_are_visible=False
+                        *visited_qualified_paths
                 )
         if (_builtins_are_visible
                 and is_builtin_name(object_path[0], modules_definitions,
@@ -219,3 +209,32 @@ def resolve_object_path(
                     modules_submodules, modules_superclasses
             )
         raise ObjectNotFound((module_path, object_path))
+
+
+def _resolve_reference(
+        referent: catalog.QualifiedPath,
+        attribute_path: catalog.Path,
+        modules_definitions: t.Mapping[catalog.Path, Scope],
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
+        *visited_qualified_paths: catalog.QualifiedPath
+) -> catalog.QualifiedPath:
+    module_path, object_path = referent
+    try:
+        module_path, object_path = resolve_object_path(
+                module_path, (), object_path, modules_definitions,
+                modules_references, modules_submodules, modules_superclasses,
+                *visited_qualified_paths,
+                # attributes of modules are never builtins
+                _builtins_are_visible=False
+        )
+    except ObjectNotFound:
+        # not an object, but a submodule
+        module_path, object_path = module_path + object_path, ()
+    return resolve_object_path(
+            module_path, (), object_path + attribute_path,
+            modules_definitions, modules_references, modules_submodules,
+            modules_superclasses, *visited_qualified_paths,
+            _builtins_are_visible=False
+    )
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index d723e19..98355d4 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -413,8 +413,9 @@ if _reload_cache:
                            reference_path: _catalog.Path,
                            referent_module_path: _catalog.Path,
                            referent_object_path: _catalog.Path) -> None:
-            self.module_references[reference_path] = (referent_module_path,
-                                                      referent_object_path)
+            self.module_references[self.parent_path + reference_path] = (
+                referent_module_path, referent_object_path
+            )
 
         def _add_submodule(self, module_path: _catalog.Path) -> None:
             self.modules_submodules.setdefault(
@@ -448,7 +449,6 @@ if _reload_cache:
             try:
                 return self._resolve_object_path(object_path)
             except _ObjectNotFound:
-                self._add_path_definition(object_path)
                 return (self.module_path, object_path)
 
         def _is_type_var_object_path(
@@ -527,8 +527,10 @@ if _reload_cache:
                 modules_superclasses, visited_modules_paths, classes_bases,
                 generics_parameters_paths
         )
-        if _scoping.scope_contains_path(module_definitions,
-                                        parent_path + (first_name,)):
+        if (_scoping.scope_contains_path(module_definitions,
+                                         parent_path + (first_name,))
+                or (parent_path and (*parent_path, first_name)
+                    in modules_references[module_path])):
             return module_path, parent_path + object_path
         elif first_name in module_definitions:
             return module_path, object_path
-- 
2.43.0


From 94f477803b6fbd0e3a3ec465d55ec4fe3e145387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 23/38] fix: members of specialized generics keep meaning of
 names

---
 paradigm/_core/stubs.py | 371 ++++++++++++++++++----------------------
 1 file changed, 163 insertions(+), 208 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 98355d4..73e5857 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -656,6 +656,44 @@ if _reload_cache:
                     else _ast.copy_location(_deepcopy(candidate), node))
 
 
+    class _QualifyNames(_ast.NodeTransformer):
+        """
+        Replaces names of objects with ones
+        that have the same meaning in all modules.
+        """
+
+        def __init__(
+                self,
+                resolve_object_path: _t.Callable[
+                    [_catalog.Path], _catalog.QualifiedPath
+                ],
+                objects_names: _t.Dict[_catalog.QualifiedPath, str]
+        ) -> None:
+            self.objects_names, self.resolve_object_path = (
+                objects_names, resolve_object_path
+            )
+
+        def visit_Name(self, node: _ast.Name) -> _ast.expr:
+            return self._to_qualified(node, (node.id,))
+
+        def visit_Attribute(self, node: _ast.Attribute) -> _ast.AST:
+            maybe_object_path = _conversion.to_maybe_path(node)
+            return (self.generic_visit(node)
+                    if maybe_object_path is None
+                    else self._to_qualified(node, maybe_object_path))
+
+        def _to_qualified(self,
+                          node: _ast.expr,
+                          object_path: _catalog.Path) -> _ast.expr:
+            if object_path[0] in self.objects_names.values():
+                return node
+            qualified_path = self.resolve_object_path(object_path)
+            name = self.objects_names.setdefault(
+                    qualified_path, f'@{len(self.objects_names)}'
+            )
+            return _ast.copy_location(_ast.Name(name, _ast.Load()), node)
+
+
     def _parse_stubs_state(
             modules_paths: _t.Iterable[_catalog.Path]
     ) -> _t.Tuple[
@@ -720,26 +758,10 @@ if _reload_cache:
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
-            *,
-            specializations_module_path: _catalog.Path = ('__specializations',)
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
     ) -> None:
-        assert specializations_module_path not in modules_ast_nodes
-        specializations_ast_nodes = modules_ast_nodes[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_definitions
-        specializations_module_scope = modules_definitions[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_nodes_kinds
-        specializations_nodes_kinds = modules_nodes_kinds[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_references
-        specializations_references = modules_references[
-            specializations_module_path
-        ] = {}
+        objects_names: _t.Dict[_catalog.QualifiedPath, str] = {}
+        specializations_paths: _t.Dict[str, _catalog.QualifiedPath] = {}
         for (class_module_path, class_object_path), class_bases in (
                 classes_bases.items()
         ):
@@ -747,13 +769,10 @@ if _reload_cache:
                 base_module_path, base_object_path = _register_base_ast_node(
                         base, class_module_path, class_object_path,
                         classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
+                        objects_names, specializations_paths,
+                        modules_ast_nodes, modules_definitions,
+                        modules_nodes_kinds, modules_references,
+                        modules_submodules, modules_superclasses
                 )
                 modules_superclasses.setdefault(
                         class_module_path, {}
@@ -769,146 +788,84 @@ if _reload_cache:
             generics_parameters_paths: _t.Dict[
                 _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
             ],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_path: _catalog.Path,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
+            objects_names: _t.Dict[_catalog.QualifiedPath, str],
+            specializations_paths: _t.Dict[str, _catalog.QualifiedPath],
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
+            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
+            *,
+            specializations_module_path: _catalog.Path = ('__specializations',)
     ) -> _catalog.QualifiedPath:
-        if _is_generic_specialization(base):
-            base_name = _serialization.to_identifier(base)
-            base_object_path = (base_name,)
-            if base_name not in specializations_module_scope:
-                specialization_args = _unpack_ast_node(
-                        _subscript_to_item(base)
-                )
-                generic_object_path = _conversion.to_path(base.value)
-                generic_module_path, generic_object_path = (
-                    _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
-                            generic_object_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
-                    )
-                )
-                generic_parameters_paths = generics_parameters_paths[
-                    (generic_module_path, generic_object_path)
-                ]
-                _register_generic_specialization(
-                        generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
-                )
-                assert base_object_path not in modules_superclasses.get(
-                        specializations_module_path, {}
-                )
-                specialization_table = dict(zip(generic_parameters_paths,
-                                                specialization_args))
-                specialize = _SpecializeGeneric(specialization_table).visit
-                generic_bases = classes_bases[(generic_module_path,
-                                               generic_object_path)]
-                for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(
-                                _deepcopy(generic_base)
-                        )
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
-                        )
-                    modules_superclasses.setdefault(
-                            specializations_module_path, {}
-                    ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
-                    )
-            return specializations_module_path, base_object_path
-        else:
-            base_reference_path = _conversion.to_path(base)
+        def resolve_object_path(
+                object_path: _catalog.Path
+        ) -> _catalog.QualifiedPath:
             return _scoping.resolve_object_path(
-                    child_module_path, child_object_path[:-1],
-                    base_reference_path, modules_definitions,
-                    modules_references, modules_submodules,
-                    modules_superclasses
+                    child_module_path, child_object_path[:-1], object_path,
+                    modules_definitions, modules_references,
+                    modules_submodules, modules_superclasses
             )
 
+        if not _is_generic_specialization(base):
+            return resolve_object_path(_conversion.to_path(base))
+        generic_module_path, generic_object_path = resolve_object_path(
+                _conversion.to_path(base.value)
+        )
+        base = _QualifyNames(resolve_object_path,
+                             objects_names).visit(_deepcopy(base))
+        specialization_key = _ast.dump(base)
+        try:
+            return specializations_paths[specialization_key]
+        except KeyError:
+            # specializations do not share scopes
+            # since the same names may have different meanings there
+            specialization_module_path = (*specializations_module_path,
+                                          str(len(specializations_paths)))
+            # should not clash with names mentioned in the specialization
+            specialization_object_path = (f'@{generic_object_path[-1]}',)
+            specializations_paths[specialization_key] = (
+                specialization_module_path, specialization_object_path
+            )
+        specialize = _SpecializeGeneric(
+                dict(zip(generics_parameters_paths[
+                             (generic_module_path, generic_object_path)
+                         ],
+                         _unpack_ast_node(_subscript_to_item(base))))
+        ).visit
+        _register_generic_specialization(
+                generic_module_path, generic_object_path,
+                specialization_module_path, specialization_object_path,
+                specialize, objects_names, modules_ast_nodes,
+                modules_definitions, modules_nodes_kinds, modules_references,
+                modules_submodules, modules_superclasses
+        )
+        modules_superclasses[specialization_module_path] = {
+            specialization_object_path: [
+                _register_base_ast_node(
+                        specialize(_deepcopy(generic_base)),
+                        generic_module_path, generic_object_path,
+                        classes_bases, generics_parameters_paths,
+                        objects_names, specializations_paths,
+                        modules_ast_nodes, modules_definitions,
+                        modules_nodes_kinds, modules_references,
+                        modules_submodules, modules_superclasses
+                )
+                for generic_base in classes_bases[(generic_module_path,
+                                                   generic_object_path)]
+            ]
+        }
+        return specialization_module_path, specialization_object_path
+
 
     def _register_generic_specialization(
             generic_module_path: _catalog.Path,
             generic_object_path: _catalog.Path,
             specialization_module_path: _catalog.Path,
             specialization_object_path: _catalog.Path,
-            generic_parameters_paths: _t.Sequence[_catalog.Path],
-            specialization_args: _t.Sequence[_ast.expr],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
+            specialize: _t.Callable[[_ast.AST], _ast.AST],
+            objects_names: _t.Dict[_catalog.QualifiedPath, str],
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
@@ -916,72 +873,70 @@ if _reload_cache:
             modules_submodules: _t.Mapping[_catalog.Path, _ModuleSubmodules],
             modules_superclasses: _t.Mapping[
                 _catalog.Path, _ModuleSuperclasses
-            ],
-            builtins_module_path: _catalog.Path
-            = _catalog.module_path_from_module(_builtins)
+            ]
     ) -> None:
-        base_scope = specializations_module_scope
-        for part in specialization_object_path:
-            base_scope = base_scope.setdefault(part, {})
+        objects_paths = {name: path for path, name in objects_names.items()}
         generic_scope = modules_definitions[generic_module_path]
         for part in generic_object_path:
             generic_scope = generic_scope[part]
-        base_scope.update(generic_scope)
         generic_module_ast_nodes = modules_ast_nodes[generic_module_path]
-        specializations_nodes_kinds[
-            specialization_object_path
-        ] = _NodeKind.CLASS
-        specialize = _SpecializeGeneric(
-                dict(zip(generic_parameters_paths, specialization_args))
-        ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
-        )
-        for name in generic_scope.keys():
+        generic_module_nodes_kinds = modules_nodes_kinds[generic_module_path]
+        generic_module_references = modules_references[generic_module_path]
+        specialization_scope: _Scope = {}
+        specialization_name, = specialization_object_path
+        modules_definitions[specialization_module_path] = {
+            specialization_name: specialization_scope
+        }
+        ast_nodes = modules_ast_nodes[specialization_module_path] = {}
+        nodes_kinds = modules_nodes_kinds[specialization_module_path] = {
+            specialization_object_path: _NodeKind.CLASS
+        }
+        references = modules_references[specialization_module_path] = {
+            (*specialization_object_path, path[-1]): (
+                (specialization_module_path,
+                 specialization_object_path + (referent_object_path[-1],))
+                if (referent_module_path == generic_module_path
+                    and referent_object_path[:-1] == generic_object_path)
+                else (referent_module_path, referent_object_path)
+            )
+            for path, (referent_module_path, referent_object_path) in (
+                generic_module_references.items()
+            )
+            if path[:-1] == generic_object_path
+        }
+        for name, scope in generic_scope.items():
             generic_field_path = (*generic_object_path, name)
-            generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
             specialization_field_path = (*specialization_object_path, name)
-            specialization_ast_nodes = specializations_ast_nodes[
-                specialization_field_path
-            ] = [specialize(_deepcopy(ast_node))
-                 for ast_node in generic_ast_nodes]
-            specialization_definitions_names = set(
-                    chain.from_iterable(
-                            _conversion.to_names(ast_node)
-                            for ast_node in specialization_ast_nodes
-                    )
-            )
-            for dependency_name in (
-                    {child.id
-                     for ast_node in specialization_ast_nodes
-                     for child in _recursively_iterate_children(ast_node)
-                     if _is_dependency_name(child)}
-                    - specialization_definitions_names
-            ):
-                dependency_path = (dependency_name,)
-                dependency_module_path, dependency_object_path = (
-                    _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
-                            dependency_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
+            node_kind = generic_module_nodes_kinds[generic_field_path]
+            if node_kind is _NodeKind.CLASS:
+                references[specialization_field_path] = (generic_module_path,
+                                                         generic_field_path)
+                continue
+            specialization_scope[name] = scope
+            nodes_kinds[specialization_field_path] = node_kind
+            field_ast_nodes = ast_nodes[specialization_field_path] = [
+                specialize(_deepcopy(ast_node))
+                for ast_node in generic_module_ast_nodes[generic_field_path]
+            ]
+            for dependency_name in {
+                child.id
+                for ast_node in field_ast_nodes
+                for child in _recursively_iterate_children(ast_node)
+                if _is_dependency_name(child)
+            }:
+                if (dependency_name in generic_scope
+                        or ((*generic_object_path, dependency_name)
+                            in generic_module_references)):
+                    continue
+                references[(dependency_name,)] = (
+                    objects_paths[dependency_name]
+                    if dependency_name in objects_paths
+                    else _scoping.resolve_object_path(
+                            generic_module_path, (), (dependency_name,),
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses
                     )
                 )
-                if dependency_module_path != builtins_module_path:
-                    specializations_references[dependency_path] = (
-                        dependency_module_path, dependency_object_path
-                    )
-            specializations_nodes_kinds[specialization_field_path] = (
-                modules_nodes_kinds[generic_module_path][generic_field_path]
-            )
 
 
     if _execution.is_main_process():
-- 
2.43.0


From 6490f34302f734f8df03c44e3de36158f28085a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 24/38] fix: type parameters of generics are ordered as they
 are declared

---
 paradigm/_core/stubs.py | 46 +++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 73e5857..a055928 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -265,20 +265,22 @@ if _reload_cache:
             class_path, module_path = (self.parent_path + (class_name,),
                                        self.module_path)
             class_bases = self.classes_bases[(module_path, class_path)] = []
-            type_vars_local_paths = []
+            type_vars_local_paths: _t.List[_catalog.Path] = []
+            declared_type_vars_local_paths: _t.List[_catalog.Path] = []
             for base in node.bases:
                 if _is_generic_specialization(base):
                     type_args_maybe_objects_paths = [
                         _conversion.to_maybe_path(argument)
                         for argument in _collect_type_args(base)
                     ]
-                    type_vars_local_paths += [
+                    base_type_vars_local_paths = [
                         maybe_object_path
                         for maybe_object_path in type_args_maybe_objects_paths
                         if (maybe_object_path is not None
                             and
                             self._is_type_var_object_path(maybe_object_path))
                     ]
+                    type_vars_local_paths += base_type_vars_local_paths
                     base_origin_maybe_object_path = (
                         _conversion.to_maybe_path(base.value)
                     )
@@ -287,6 +289,9 @@ if _reload_cache:
                                     base_origin_maybe_object_path
                             ) in [(typing_module_path, generic_object_path),
                                   (typing_module_path, protocol_object_path)]):
+                        declared_type_vars_local_paths += (
+                            base_type_vars_local_paths
+                        )
                         continue
                 else:
                     base_reference_path = _conversion.to_path(base)
@@ -316,7 +321,9 @@ if _reload_cache:
                              and base_object_path == generic_object_path)
                     ), (module_path, class_path)
                 class_bases.append(base)
-            generic_parameters = tuple(dict.fromkeys(type_vars_local_paths))
+            generic_parameters = tuple(dict.fromkeys(
+                    declared_type_vars_local_paths or type_vars_local_paths
+            ))
             if generic_parameters:
                 self.generics_parameters_paths[
                     (module_path, class_path)
@@ -454,10 +461,13 @@ if _reload_cache:
         def _is_type_var_object_path(
                 self, object_path: _catalog.Path,
                 *,
+                param_spec_object_path: _catalog.Path = ('ParamSpec',),
                 type_var_object_path: _catalog.Path
                 = _catalog.path_from_string(_t.TypeVar.__qualname__),
                 typing_module_path: _catalog.Path
                 = _catalog.module_path_from_module(_t),
+                typing_extensions_module_path: _catalog.Path
+                = ('typing_extensions',)
         ) -> bool:
             module_path, object_path = self._to_qualified_path(object_path)
             _parse_stub_scope(
@@ -490,8 +500,10 @@ if _reload_cache:
                         self.generics_parameters_paths
                 )
             )
-            return (callable_module_path == typing_module_path
-                    and callable_object_path == type_var_object_path)
+            return (callable_module_path in [typing_module_path,
+                                             typing_extensions_module_path]
+                    and callable_object_path in [param_spec_object_path,
+                                                 type_var_object_path])
 
 
     class _ObjectNotFound(Exception):
@@ -618,21 +630,15 @@ if _reload_cache:
         return tuple(ast_node.elts)
 
 
-    def _collect_type_args(ast_node: _ast.expr) -> _t.List[_ast.expr]:
-        if _is_generic_specialization(ast_node):
-            queue = [_subscript_to_item(ast_node)]
-            args: _t.List[_ast.expr] = []
-            while queue:
-                specialization_node = queue.pop()
-                candidates = _unpack_ast_node(specialization_node)
-                for candidate in reversed(candidates):
-                    if _is_generic_specialization(candidate):
-                        queue.append(_subscript_to_item(candidate))
-                    else:
-                        args.append(candidate)
-            return args[::-1]
-        else:
-            return []
+    def _collect_type_args(ast_node: _ast.AST) -> _t.List[_ast.expr]:
+        if isinstance(ast_node, (_ast.Attribute, _ast.Name)):
+            return [ast_node]
+        return list(chain.from_iterable(
+                map(_collect_type_args,
+                    [_subscript_to_item(ast_node)]
+                    if isinstance(ast_node, _ast.Subscript)
+                    else _ast.iter_child_nodes(ast_node))
+        ))
 
 
     class _SpecializeGeneric(_ast.NodeTransformer):
-- 
2.43.0


From 9e758717dfb18bb2c94cb7b647dcaee020efc0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 25/38] fix: cache saved again within a second is not shadowed
 by its stale bytecode

---
 paradigm/_core/caching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/paradigm/_core/caching.py b/paradigm/_core/caching.py
index 7438f8b..92ebb2b 100644
--- a/paradigm/_core/caching.py
+++ b/paradigm/_core/caching.py
@@ -31,6 +31,7 @@ def save(*, path: Path, **values: t.Any) -> None:
                            + pretty.repr_from(value, 4, 0)
                            + '\n')
         compile_file(path,
+                     force=True,
                      quiet=2)
     except Exception as error:
         warnings.warn(f'Failed saving "{path}". '
-- 
2.43.0


From f4fd866fe5c004fb52388728b94f85aa0500803a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 26/38] fix: cache with unknown kinds of nodes is rebuilt
 instead of failing import

---
 paradigm/_core/stubs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index a055928..4521c4f 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -47,9 +47,6 @@ try:
                       _SUBMODULES_FIELD_NAME, _SUPERCLASSES_FIELD_NAME,
                       _VERSION_FIELD_NAME,
                       path=_CACHE_PATH)
-except Exception:
-    _reload_cache = True
-else:
     _reload_cache = _cached_version != _version
     if not _reload_cache:
         nodes_kinds = {
@@ -59,6 +56,8 @@ else:
             }
             for module_path, objects_kinds in _raw_nodes_kinds.items()
         }
+except Exception:
+    _reload_cache = True
 if _reload_cache:
     import ast as _ast
     import builtins as _builtins
-- 
2.43.0


From 6d66a956b66a0a02ddb0ebe13d23d306132ee5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 27/38] fix: calls in helper processes from several threads
 exclude each other

---
 paradigm/_core/execution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..b7e7b6e 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -10,10 +10,13 @@ def is_main_process() -> bool:
     return multiprocessing.current_process().name == 'MainProcess'
 
 
+_lock = threading.RLock()
+
+
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    with threading.Lock():
+    with _lock:
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
         assert caller_module is not None
-- 
2.43.0


From 4bedbcce13820837e996412e1ad09ea3017b20e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 28/38] fix: caller of helper process gets every outcome and
 passes any keyword

---
 paradigm/_core/execution.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index b7e7b6e..65f0441 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -29,8 +29,7 @@ def call_in_process(function: t.Callable[..., t.Any],
                     target=_put_result_in_queue,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
-                    kwargs=kwargs
+                    args=(queue, function, args, kwargs)
             )
             process.start()
             result, error = queue.get()
@@ -47,12 +46,11 @@ def call_in_process(function: t.Callable[..., t.Any],
 
 def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
                          function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+                         args: t.Tuple[t.Any, ...],
+                         kwargs: t.Dict[str, t.Any]) -> None:
     try:
-        result = function(*args, **kwargs)
-    except Exception as error:
+        queue.put((function(*args, **kwargs), None))
+    except BaseException as error:
+        # the caller is waiting whatever happens
         queue.put((None, error))
         raise error
-    else:
-        queue.put((result, None))
-- 
2.43.0


From 8830cdad43ab9f998b00a5461f1d293dbffe0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 29/38] fix: built-in objects describe no objects of other
 modules with the same name

---
 paradigm/_core/signatures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index f3b3826..0fb101d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -411,7 +411,9 @@ def _try_resolve_object_path(
     try:
         return _scoping.resolve_object_path(
                 module_path, (), object_path, _stubs.definitions,
-                _stubs.references, _stubs.submodules, _stubs.superclasses
+                _stubs.references, _stubs.submodules, _stubs.superclasses,
+                # objects of modules are not builtins of the same name
+                _builtins_are_visible=False
         )
     except _scoping.ObjectNotFound:
         return (), ()
-- 
2.43.0


From 48d1961eac427ba248ba53d68a8a90cd85e01997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 30/38] fix: functions declared by stubs as classes lose
 receiver, by variables only are not classes

---
 paradigm/_core/signatures.py | 49 ++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 0fb101d..9a2dd31 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -103,17 +103,9 @@ def _(
 @from_callable.register(type)
 def _(_callable: _t.Callable[..., _t.Any]) -> _Signature:
     try:
-        qualified_paths = resolve_qualified_paths(_callable)
-        if not qualified_paths:
-            raise _SignatureNotFound
-        module_path, object_path = _resolve_builder_qualified_path(
-                qualified_paths
+        return _from_classes_qualified_paths(
+                resolve_qualified_paths(_callable), _callable
         )
-        ast_nodes = _load_ast_nodes(module_path, object_path)
-        class_path, builder_name = object_path[:-1], object_path[-1]
-        return _from_signatures(*[_from_statement_node(ast_node, _callable,
-                                                       module_path, class_path)
-                                  for ast_node in ast_nodes])
     except _SignatureNotFound:
         raw_signature = _inspect.signature(_callable)
         return _from_raw_signature(
@@ -420,31 +412,40 @@ def _try_resolve_object_path(
 
 
 def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
-    for module_path, object_path in _to_qualified_paths(value):
-        ast_nodes = _load_ast_nodes(module_path, object_path)
+    qualified_paths = resolve_qualified_paths(value)
+    for module_path, object_path in [path for path in qualified_paths
+                                     if not _is_class_path(*path)]:
         parent_path = object_path[:-1]
         try:
             signatures = [
                 _from_statement_node(ast_node, value, module_path, parent_path)
-                for ast_node in ast_nodes
+                for ast_node in _load_ast_nodes(module_path, object_path)
             ]
         except _SignatureNotFound:
             continue
         else:
             return _from_signatures(*signatures)
-    raise _SignatureNotFound
+    # may be a function instead of a class declared by stub
+    return _from_classes_qualified_paths(qualified_paths, object)
 
 
-def _to_qualified_paths(
-        value: _t.Callable[..., _t.Any]
-) -> _t.Iterable[_catalog.QualifiedPath]:
-    qualified_paths = resolve_qualified_paths(value)
-    if qualified_paths:
-        module_path, object_path = qualified_paths[0]
-        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS:
-            yield _resolve_builder_qualified_path(qualified_paths)
-        else:
-            yield from qualified_paths
+def _from_classes_qualified_paths(
+        qualified_paths: _t.Sequence[_catalog.QualifiedPath],
+        cls: type
+) -> _Signature:
+    module_path, object_path = _resolve_builder_qualified_path(
+            [path for path in qualified_paths if _is_class_path(*path)]
+    )
+    class_path = object_path[:-1]
+    return _from_signatures(*[
+        _from_statement_node(ast_node, cls, module_path, class_path)
+        for ast_node in _load_ast_nodes(module_path, object_path)
+    ])
+
+
+def _is_class_path(module_path: _catalog.Path,
+                   object_path: _catalog.Path) -> bool:
+    return _stubs.nodes_kinds[module_path].get(object_path) is _NodeKind.CLASS
 
 
 def _resolve_builder_qualified_path(
-- 
2.43.0


From f2eb52ed9cc994b12d0c64739c4ff53570c9e6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 31/38] fix: functions are described by their own stubs before
 variables bound to them

---
 paradigm/_core/signatures.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 9a2dd31..3191ea6 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -413,8 +413,11 @@ def _try_resolve_object_path(
 
 def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
     qualified_paths = resolve_qualified_paths(value)
-    for module_path, object_path in [path for path in qualified_paths
-                                     if not _is_class_path(*path)]:
+    for module_path, object_path in sorted(
+            [path for path in qualified_paths if not _is_class_path(*path)],
+            # variables may be annotated with less than functions declare
+            key=lambda path: not _is_function_path(*path)
+    ):
         parent_path = object_path[:-1]
         try:
             signatures = [
@@ -448,6 +451,12 @@ def _is_class_path(module_path: _catalog.Path,
     return _stubs.nodes_kinds[module_path].get(object_path) is _NodeKind.CLASS
 
 
+def _is_function_path(module_path: _catalog.Path,
+                      object_path: _catalog.Path) -> bool:
+    return (_stubs.nodes_kinds[module_path].get(object_path)
+            in (_NodeKind.ASYNC_FUNCTION, _NodeKind.FUNCTION))
+
+
 def _resolve_builder_qualified_path(
         qualified_paths: _t.Sequence[_catalog.QualifiedPath],
         *,
-- 
2.43.0


From bc583a2f9d9f9e507ada0a5ad7abf1886c0b27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 32/38] fix: callables bound to variables of other annotations
 are inspected

---
 paradigm/_core/signatures.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 3191ea6..89cbb02 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -124,7 +124,8 @@ def _from_expression_node(ast_node: _ast.expr,
                           callable_: _t.Callable[..., _t.Any],
                           module_path: _catalog.Path,
                           parent_path: _catalog.Path) -> _Signature:
-    raise TypeError(ast_node)
+    # says nothing of parameters
+    raise _SignatureNotFound
 
 
 @_from_expression_node.register(_ast.Attribute)
@@ -135,7 +136,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
       parent_path: _catalog.Path,
       *,
       call_name: str = object.__call__.__name__) -> _Signature:
-    object_path = _conversion.to_path(ast_node)
+    object_path = _to_path(ast_node)
     module_path, object_path = _scoping.resolve_object_path(
             module_path, parent_path, object_path, _stubs.definitions,
             _stubs.references, _stubs.submodules, _stubs.superclasses
@@ -173,7 +174,7 @@ def _(ast_node: _ast.Call,
       = _catalog.path_from_string(_t.TypeVar.__qualname__),
       typing_module_path: _catalog.Path
       = _catalog.module_path_from_module(_t)) -> _Signature:
-    callable_object_path = _conversion.to_path(ast_node.func)
+    callable_object_path = _to_path(ast_node.func)
     callable_module_path, callable_object_path = _scoping.resolve_object_path(
             module_path, parent_path, callable_object_path, _stubs.definitions,
             _stubs.references, _stubs.submodules, _stubs.superclasses
@@ -206,7 +207,7 @@ def _(ast_node: _ast.Subscript,
       callable_object_path: _catalog.Path = ('Callable',),
       typing_module_path: _catalog.Path
       = _catalog.module_path_from_module(_t)) -> _Signature:
-    value_path = _conversion.to_path(ast_node.value)
+    value_path = _to_path(ast_node.value)
     value_module_path, value_object_path = _scoping.resolve_object_path(
             module_path, parent_path, value_path, _stubs.definitions,
             _stubs.references, _stubs.submodules, _stubs.superclasses
@@ -252,6 +253,13 @@ def _(ast_node: _ast.Subscript,
     raise _SignatureNotFound
 
 
+def _to_path(ast_node: _ast.expr) -> _catalog.Path:
+    result = _conversion.to_maybe_path(ast_node)
+    if result is None:
+        raise _SignatureNotFound
+    return result
+
+
 @_singledispatch
 def _from_statement_node(ast_node: _ast.stmt,
                          callable_: _t.Callable[..., _t.Any],
-- 
2.43.0


From 61355a82ae0c78ea1c1c29277f3d1e66de765ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 33/38] fix: type variables without bound and constraints tell
 no signature

---
 paradigm/_core/signatures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 89cbb02..5ef3926 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -185,11 +185,14 @@ def _(ast_node: _ast.Call,
                                       for keyword in ast_node.keywords
                                       if keyword.arg == 'bound'),
                                      None)
+        constraints_nodes = ast_node.args[1:]
+        if maybe_bound_type_node is None and not constraints_nodes:
+            raise _SignatureNotFound
         return (
             _from_signatures(
                     *[_from_expression_node(argument, callable_, module_path,
                                             parent_path)
-                      for argument in ast_node.args[1:]]
+                      for argument in constraints_nodes]
             )
             if maybe_bound_type_node is None
             else _from_expression_node(maybe_bound_type_node, callable_,
-- 
2.43.0


From e0fa6d97e1a14a8fbe10b140bc354fb104ad6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 34/38] fix: annotations of aliases and of "__call__" are
 evaluated in their own scope

---
 paradigm/_core/signatures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 5ef3926..77ef176 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -145,8 +145,8 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
     if node_kind is _NodeKind.CLASS:
         call_ast_nodes = _load_ast_nodes(module_path,
                                          (*object_path, call_name))
-        call_signatures = [_from_statement_node(ast_node, callable_,
-                                                module_path, ())
+        call_signatures = [_from_statement_node(ast_node, callable_.__call__,
+                                                module_path, object_path)
                            for ast_node in call_ast_nodes]
         return _from_signatures(*[signature.bind(callable_)
                                   for signature in call_signatures])
@@ -160,7 +160,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
             assert isinstance(annotation_node, _ast.stmt), (module_path,
                                                             object_path)
             return _from_statement_node(annotation_node, callable_,
-                                        module_path, ())
+                                        module_path, object_path[:-1])
     raise _SignatureNotFound
 
 
-- 
2.43.0


From 96591622951c08114de06a70016e842b53829eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 35/38] fix: tell literals of different types apart when
 comparing annotations

---
 paradigm/_core/annotated.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index d71d118..8226fbc 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -22,6 +22,10 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
     return result
 
 
+def _are_literals_equal(left: t.Any, right: t.Any) -> bool:
+    return type(left) is type(right) and are_equal(left, right)
+
+
 @are_equal.register(GenericAlias)
 @are_equal.register(type(t.List))
 @are_equal.register(type(t.Union[int, None]))
@@ -30,14 +34,17 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
     left_origin, right_origin = (to_origin(left) or left,
                                  to_origin(right) or right)
+    are_members_equal = (_are_literals_equal
+                         if left_origin is Literal
+                         else are_equal)
     return (left_origin is right_origin
             and (getattr(left, '__unpacked__', False)
                  is getattr(right, '__unpacked__', False))
             and len(left_args) == len(right_args)
-            and ((all(any(are_equal(left_arg, right_arg)
+            and ((all(any(are_members_equal(left_arg, right_arg)
                           for right_arg in right_args)
                       for left_arg in left_args)
-                  and all(any(are_equal(left_arg, right_arg)
+                  and all(any(are_members_equal(left_arg, right_arg)
                               for left_arg in left_args)
                           for right_arg in right_args))
                  if (left_origin is t.Union
-- 
2.43.0


From ec480213a4f872e3326738bfffa586d9b710eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:17 +0000
Subject: [PATCH 36/38] fix: keep quotes of literals in annotations of methods
 of stub-only classes

---
 paradigm/_core/arboreal/conversion.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 1680a14..3c6947c 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -168,7 +168,17 @@ def _(ast_node: ast.Attribute) -> str:
 @to_str.register(ast.Subscript)
 def _(ast_node: ast.Subscript) -> str:
     return (f'{to_str(ast_node.value)}'
-            f'[{to_str(ast_node.slice)}]')
+            f'[{_to_item_str(ast_node.slice)}]')
+
+
+def _to_item_str(ast_node: ast.AST) -> str:
+    # strings among the items may be literals, not only forward references
+    if isinstance(ast_node, ast.Constant):
+        return repr(ast_node.value)
+    elif isinstance(ast_node, ast.Tuple):
+        return f'({"".join(_to_item_str(e) + ", " for e in ast_node.elts)})'
+    else:
+        return to_str(ast_node)
 
 
 @to_str.register(ast.Tuple)
-- 
2.43.0


From c11658532640f419b21eeaf4e4c2e6a52a0871c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:49 +0000
Subject: [PATCH 37/38] fix: describe classes that belong to no module

---
 paradigm/_core/catalog.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index f54696c..bac2bf9 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -23,6 +23,11 @@ def path_to_string(value: Path) -> str:
     return SEPARATOR.join(value)
 
 
+def _module_name_to_path(value: _t.Any) -> Path:
+    # user-defined objects may belong to no module
+    return path_from_string(value) if isinstance(value, str) else ()
+
+
 @_singledispatch
 def qualified_path_from(value: _t.Any) -> QualifiedPath:
     return (), ()
@@ -35,7 +40,7 @@ def _(
         value: _t.Union[_types.BuiltinFunctionType, _types.BuiltinMethodType]
 ) -> QualifiedPath:
     self = value.__self__
-    return ((path_from_string(self.__module__),
+    return ((_module_name_to_path(self.__module__),
              path_from_string(value.__qualname__))
             if isinstance(self, type)
             else ((path_from_string(self.__name__
@@ -51,9 +56,7 @@ def _(
 
 @qualified_path_from.register(_types.FunctionType)
 def _(value: _types.FunctionType) -> QualifiedPath:
-    return (()
-            if value.__module__ is None
-            else path_from_string(value.__module__),
+    return (_module_name_to_path(value.__module__),
             path_from_string(value.__qualname__))
 
 
@@ -84,7 +87,7 @@ def _(value: _types.MemberDescriptorType) -> QualifiedPath:
 
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
-    return (path_from_string(value.__module__),
+    return (_module_name_to_path(value.__module__),
             path_from_string(value.__qualname__))
 
 
-- 
2.43.0


From 329660830a9c395c92280bb9a2613dffd1e77b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:21 +0000
Subject: [PATCH 38/38] fix: find the class methods and metaclass methods
 classes inherit

---
 paradigm/_core/signatures.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 77ef176..0cd40a7 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -46,7 +46,7 @@ def _(
         ]
 ) -> _Signature:
     try:
-        return ((_from_callable(_callable)
+        return ((_from_bound_to_class(_callable)
                  if isinstance(_callable.__self__, type)
                  else (_from_callable(_to_underlying_descriptor(_callable))
                        .bind(_callable.__self__)))
@@ -368,6 +368,28 @@ def _returns_annotation_from(
                                                  parent_path, {})))
 
 
+def _from_bound_to_class(value: _types.BuiltinMethodType) -> _Signature:
+    cls, name = value.__self__, value.__name__
+    assert isinstance(cls, type), value
+    # may be overridden (e.g. if bound with `super`)
+    if getattr(cls, name, value) == value:
+        try:
+            return _from_callable(value)
+        except _SignatureNotFound:
+            pass
+    for base in cls.__mro__:
+        candidate = vars(base).get(name)
+        if (isinstance(candidate, _types.ClassMethodDescriptorType)
+                and candidate.__get__(None, cls) == value):
+            return _from_callable(candidate.__get__(None, base))
+    for base in type(cls).__mro__:
+        candidate = vars(base).get(name)
+        if (isinstance(candidate, _types.MethodDescriptorType)
+                and candidate.__get__(cls) == value):
+            return _from_callable(candidate).bind(cls)
+    raise _SignatureNotFound
+
+
 def _is_bound_to_class(callable_: _t.Callable[..., _t.Any]) -> bool:
     return isinstance(getattr(callable_, '__self__', None), type)
 
-- 
2.43.0

