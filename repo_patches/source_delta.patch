From eaaa3cd096a6578dde11fde856ff1f5141cbcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 01/45] fix: place shape fragments at the end of the shape and
 with symbols

A fragment after the last '...' was searched from the left, so Array[..., 1]
rejected shape (1, 2, 1); symbols next to '...' or -1 failed an assertion.
---
 asta/utils.py | 143 ++++++++++++++++++--------------------------------
 1 file changed, 51 insertions(+), 92 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index 9c74f65..e1f641e 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -2,7 +2,6 @@
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
 import random
-import functools
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
 from sympy import solvers, simplify
@@ -35,21 +34,16 @@ def shapecheck(
 
     assert isinstance(inst_shape, tuple)
 
-    # The portions of ``inst_shape`` which correspond to each ``cls_shape`` elem.
-    shape_pieces: List[Tuple[int, ...]] = []
-
     # Case 1: No ellipses or wildcards.
     if Ellipsis not in cls_shape and -1 not in cls_shape:
         equal, equations = check_equal(cls_shape, inst_shape, equations)
 
         if not equal:
             match = False
-        shape_pieces = [(elem,) for elem in inst_shape]
 
     # Case 2: Only an ellipsis, and instance shape is empty.
     elif cls_shape == (Ellipsis,) and inst_shape == ():
         match = True
-        shape_pieces = [tuple()]
 
     # Case 3: Nonempty, not an ellipsis, and instance shape is empty.
     elif inst_shape == () != cls_shape:
@@ -67,10 +61,8 @@ def shapecheck(
         # Determine if/where '...' bookends ``cls_shape``.
         left_bookend = False
         right_bookend = False
-        ellipsis_positions: List[int] = []
         for i, elem in enumerate(cls_shape):
             if elem == Ellipsis:
-                ellipsis_positions.append(i)
 
                 # e.g. ``Array[..., 1, 2, 3]``.
                 if i == 0:
@@ -83,73 +75,10 @@ def shapecheck(
         # Analogous to ``str.split(<elem>)``, we split the shape on '...'.
         frags: List[Tuple[int, ...]] = split(cls_shape, Ellipsis)
 
-        # Index in ``cls_shape`` as we construct ``shape_pieces``.
-        cls_idx = 0
-
-        # ``ishape`` is the remaining portion of the instance shape.
-        ishape = inst_shape
-        for i, frag in enumerate(frags):
-
-            # Look for ``frag`` in ``ishape``, and find starting index.
-            is_sub, index, equations = is_subtuple(frag, ishape, equations)
-
-            # Must have ``frag`` contained in ``ishape``.
-            if not is_sub:
-                match = False
-                break
-
-            # First fragment must start at 0 if '...' is not the first
-            # element of ``cls_shape``.
-            if i == 0 and not left_bookend and index != 0:
-                match = False
-                break
-
-            # Last fragement must end at (exclusive) ``len(ishape)`` if
-            # '...' is not the last element of ``cls_shape``.
-            if (
-                i == len(frags) - 1
-                and not right_bookend
-                and index + len(frag) != len(ishape)
-            ):
-                match = False
-                break
-
-            # The subseq of ``ishape`` being substituted for ``...``.
-            substituted = ishape[:index]
-
-            # Can't match zero-size dims with ``...``.
-            if 0 in substituted:
-                match = False
-                break
-
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-            ifrag = ishape[index : index + len(frag)]
-            for elem in ifrag:
-                shape_pieces.append((elem,))
-                cls_idx += 1
-
-            new_start = index + len(frag)
-            ishape = ishape[new_start:]
-
-        # If ``cls_shape`` ends with ``...``, ensure substituted tuple has no 0s.
-        if right_bookend and 0 in ishape:
-            match = False
-
-        if right_bookend:
-            substituted = ishape
-            cls_elem = cls_shape[cls_idx]
-            if cls_elem == Ellipsis:
-                shape_pieces.append(substituted)
-                cls_idx += 1
-
-        if match:
-            reconstructed = functools.reduce(lambda a, b: a + b, shape_pieces)
-            assert reconstructed == inst_shape
-            assert len(shape_pieces) == len(cls_shape) == cls_idx
+        # Find a start index in ``inst_shape`` for each fragment.
+        match, equations = place_fragments(
+            frags, inst_shape, equations, left_bookend, right_bookend
+        )
 
     # Solve our system of equations if it is nonempty.
     if match:
@@ -158,6 +87,45 @@ def shapecheck(
     return match, equations
 
 
+def place_fragments(
+    frags: List[Tuple[Union[int, Expr], ...]],
+    ishape: Tuple[int, ...],
+    equations: Set[Expr],
+    left_free: bool,
+    right_free: bool,
+) -> Tuple[bool, Set[Expr]]:
+    """
+    Place ``frags`` in ``ishape`` in order, such that the remaining sizes can be
+    substituted for '...' and the equations are solvable. The first fragment
+    must start at the beginning of ``ishape`` unless ``left_free``, and the last
+    must stop at the end unless ``right_free``.
+    """
+    if not frags:
+        # Can't match zero-size dims with ``...``.
+        match = 0 not in ishape if right_free else ishape == ()
+        return match and astasolver(set(equations))[0], equations
+
+    frag = frags[0]
+    stop = len(ishape) - len(frag) + 1
+    for i in range(stop if left_free else min(stop, 1)):
+
+        # Can't match zero-size dims with ``...``.
+        if 0 in ishape[:i]:
+            break
+
+        # Equations from a failed placement must not be kept.
+        end = i + len(frag)
+        equal, placed = check_equal(frag, ishape[i:end], set(equations))
+        if equal:
+            match, placed = place_fragments(
+                frags[1:], ishape[end:], placed, True, right_free
+            )
+            if match:
+                return True, placed
+
+    return False, equations
+
+
 def attrcheck(
     inst: GenericArray, kwattrs: Optional[Dict[str, Any]]
 ) -> Tuple[bool, Set[Expr]]:
@@ -226,26 +194,17 @@ def split(
     elem: Union[int, EllipsisType],  # type: ignore[valid-type]
 ) -> List[Tuple[int, ...]]:
     """ Split on an element. """
-    shape_list = list(shape)
-    tokens: List[str] = []
-    for num in shape_list:
+    result: List[Tuple[int, ...]] = []
+    frag: List[int] = []
+    for num in shape:
         if num == elem:
-            tokens.append("@")
+            result.append(tuple(frag))
+            frag = []
         else:
-            assert isinstance(num, int)
-            tokens.append(str(num))
-    seq: str = ",".join(tokens)
-    comma_fragments: List[str] = seq.split("@")
+            frag.append(num)
+    result.append(tuple(frag))
 
-    result: List[Tuple[int, ...]] = []
-    for frag in comma_fragments:
-        if frag:
-            frag_tokens = [token for token in frag.split(",") if token]
-            frag_nums = [int(token) for token in frag_tokens]
-            frag_tuple = tuple(frag_nums)
-            result.append(frag_tuple)
-
-    return result
+    return [frag_tuple for frag_tuple in result if frag_tuple]
 
 
 def check_equal(
-- 
2.43.0


From db5eb913ea7945338ce880e382e4481d03ac70df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 02/45] fix: accept keyword attributes in a subscript

parse_subscript() hashed its argument to compare it with Scalar, so a dict
(Array[{'ndim': 2}]) raised 'unhashable type'.
---
 asta/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index f2b65d4..799491f 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -43,7 +43,7 @@ def parse_subscript(
     shape: Optional[Tuple] = cls.shape
     kwattrs: Optional[Dict[str, Any]] = cls.kwattrs
 
-    isscalar = hash(item) == hash(Scalar)
+    isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
         shape = None
@@ -68,7 +68,7 @@ def parse_subscript(
     elif item:
 
         # Case where generic type is specified.
-        isscalar = hash(item[0]) == hash(Scalar)
+        isscalar = item[0] is Scalar
         if isinstance(item[0], (type, dtype_metaclass)) and not isscalar:
             dtype, kind = cls.get_dtype(item[0])
             item = item[1:]
-- 
2.43.0


From eb5f516e3553d12791ac247210ce102ee38f5e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 03/45] fix: keep kind and keyword attributes when refreshing
 an annotation

@typechecked ignored the attributes of Array[..., {...}] and compared
Array[str]/Array[bytes] against the zero-length dtype, so they never matched.
---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 6e55b89..7e2b48b 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -119,6 +119,11 @@ def refresh(
     else:
         refreshed_annotation = annotation
 
+    # These are not part of the subscript above.
+    refreshed_annotation.kwattrs = annotation.kwattrs
+    if hasattr(annotation, "kind"):
+        refreshed_annotation.kind = annotation.kind
+
     return refreshed_annotation, initialized
 
 
-- 
2.43.0


From 5825b1674a8beda7055be0c5cd8dc8016e241602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 04/45] fix: solve attribute equations together with the shape

isinstance() discarded them, and @typechecked dropped them when the annotation
had no shape, so {"timestep": K} never constrained K.
---
 asta/_array.py    | 10 +++++++---
 asta/_tensor.py   | 10 +++++++---
 asta/_tftensor.py | 10 +++++++---
 asta/origins.py   |  6 ++++--
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index 06e0c3e..bb7d296 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 
 import numpy as np
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import NUMPY_DIM_TYPES, NP_UNSIZED_TYPE_KINDS, EllipsisType
@@ -72,10 +72,14 @@ class _ArrayMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
 
+                # The shape and the attributes must agree on all symbols.
+                if match and attr_equations:
+                    match, _, _ = astasolver(equations.union(attr_equations))
+
         return match
 
 
diff --git a/asta/_tensor.py b/asta/_tensor.py
index dffe415..da05d1b 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import torch
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TORCH_DIM_TYPES, TORCH_DTYPE_MAP, EllipsisType
@@ -59,10 +59,14 @@ class _TensorMeta(SubscriptableMeta):
 
             # Handle ellipses.
             else:
-                shape_match, _ = shapecheck(inst.shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, equations = shapecheck(inst.shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
 
+                # The shape and the attributes must agree on all symbols.
+                if match and attr_equations:
+                    match, _, _ = astasolver(equations.union(attr_equations))
+
         return match
 
 
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index 3eda61a..de333d7 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, List, Tuple, Union, Optional
 import numpy as np
 import tensorflow as tf
 
-from asta.utils import attrcheck, shapecheck
+from asta.utils import astasolver, attrcheck, shapecheck
 from asta.parser import parse_subscript
 from asta.classes import GenericMeta, SubscriptableMeta
 from asta.constants import TF_DIM_TYPES, TF_DTYPE_MAP, EllipsisType
@@ -66,10 +66,14 @@ class _TFTensorMeta(SubscriptableMeta):
                 if isinstance(inst_shape, tf.TensorShape):
                     inst_shape = tuple(inst_shape)
 
-                shape_match, _ = shapecheck(inst_shape, cls.shape)
-                attr_match, _ = attrcheck(inst, cls.kwattrs)
+                shape_match, equations = shapecheck(inst_shape, cls.shape)
+                attr_match, attr_equations = attrcheck(inst, cls.kwattrs)
                 match = shape_match and attr_match
 
+                # The shape and the attributes must agree on all symbols.
+                if match and attr_equations:
+                    match, _, _ = astasolver(equations.union(attr_equations))
+
         return match
 
 
diff --git a/asta/origins.py b/asta/origins.py
index 7e2b48b..3f89059 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -155,6 +155,9 @@ def check_asta(
         shape_equations: Set[Expr] = set()
         attr_equations: Set[Expr] = set()
 
+        attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
+        assert attr_match
+
         if annotation.shape is not None:
 
             # HARDCODE
@@ -164,8 +167,7 @@ def check_asta(
 
             # Grab equations from shapecheck call.
             shape_match, shape_equations = shapecheck(value_shape, annotation.shape)
-            attr_match, attr_equations = attrcheck(value, annotation.kwattrs)
-            assert shape_match and attr_match
+            assert shape_match
 
         equations = equations.union(shape_equations, attr_equations)
 
-- 
2.43.0


From 7376ded56f01bf09529547778f67d98328171f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 05/45] fix: reject non-numeric values of symbolic attributes

isinstance(arr, Array[{"tag": X}]) raised an unrelated TypeError when the
attribute was a string.
---
 asta/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index e1f641e..d9f5522 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Typechecking utilities. """
 import random
+from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
 from sympy import solvers, simplify
@@ -142,6 +143,10 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
+            # Only a number can satisfy an equation.
+            if not isinstance(attr, (Number, Expr)):
+                match = False
+                break
             equations.add(value - attr)
         elif attr != value:
             match = False
-- 
2.43.0


From 0d895e0cca1a2574683af1c357dbc574835a77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:40 +0000
Subject: [PATCH 06/45] fix: make equality and hash of types consistent

Equality ignored the keyword attributes and took Array[float] for Array (numpy
has np.dtype("float64") == None); the hash of a type was inherited by every
type subscripted from it, and depended on the order of the attributes.
---
 asta/_array.py    | 8 +++++++-
 asta/_tensor.py   | 4 +++-
 asta/_tftensor.py | 5 +++--
 asta/classes.py   | 9 +++++----
 4 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/asta/_array.py b/asta/_array.py
index bb7d296..ef7f008 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -40,11 +40,17 @@ class _ArrayMeta(SubscriptableMeta):
         return SubscriptableMeta.__getitem__(cls, item)
 
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes and attributes match, they should be equal. """
         if not isinstance(other, _ArrayMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kind != other.kind or cls.kwattrs != other.kwattrs:
+            return False
+
+        # Numpy considers ``None`` to be equal to ``np.dtype("float64")``.
+        if (cls.dtype is None) != (other.dtype is None):
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tensor.py b/asta/_tensor.py
index da05d1b..4922b95 100644
--- a/asta/_tensor.py
+++ b/asta/_tensor.py
@@ -33,11 +33,13 @@ class _TensorMeta(SubscriptableMeta):
         return SubscriptableMeta.__getitem__(cls, item)
 
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes and attributes match, they should be equal. """
         if not isinstance(other, _TensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index de333d7..eb56a02 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -32,13 +32,14 @@ class _TFTensorMeta(SubscriptableMeta):
         """ Defer to the metaclass which calls ``cls._after_subscription()``. """
         return SubscriptableMeta.__getitem__(cls, item)
 
-    # TODO: Include kwattrs for each of these classes.
     def __eq__(cls, other: Any) -> bool:
-        """ If the dtypes and shapes match, they should be equal. """
+        """ If the dtypes, shapes and attributes match, they should be equal. """
         if not isinstance(other, _TFTensorMeta):
             return False
         if cls.shape != other.shape or cls.dtype != other.dtype:
             return False
+        if cls.kwattrs != other.kwattrs:
+            return False
         return True
 
     def __hash__(cls) -> int:
diff --git a/asta/classes.py b/asta/classes.py
index 490e98c..866c43a 100644
--- a/asta/classes.py
+++ b/asta/classes.py
@@ -54,7 +54,6 @@ class SubscriptableMeta(GenericMeta):
     __origin__: Any
 
     def __init_subclass__(cls) -> None:
-        cls._hash = 0
         cls.__args__ = None
         cls.__origin__ = None
 
@@ -108,9 +107,11 @@ class SubscriptableMeta(GenericMeta):
         assert hasattr(cls, "shape")
         assert hasattr(cls, "dtype")
         assert hasattr(cls, "kwattrs")
-        if not getattr(cls, "_hash", None):
-            cls._hash = hash(f"{cls.shape}{cls.dtype}{cls.kwattrs}")
-        return cls._hash
+
+        # Subscripting copies the class body, so the hash must not be stored there.
+        # The values in ``cls.kwattrs`` are not necessarily hashable.
+        keys = None if cls.kwattrs is None else frozenset(cls.kwattrs)
+        return hash((cls.shape, cls.dtype, keys))
 
     def __repr__(cls) -> str:
         """ String representation of class. """
-- 
2.43.0


From d4826958eded6f887d2b48d40184e6b878e2f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 07/45] fix: bind positional arguments to parameters, not to
 annotations

The annotations of positional-only parameters come after the others, so their
arguments were checked against the wrong annotation.
---
 asta/decorators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 21b9e55..ecfe9e3 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -46,8 +46,10 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
-    for i, arg in enumerate(pure_args):
-        name = list(annotations.keys())[i]
+        paramlist = paramlist[1:]
+
+    # Parameters are not necessarily in the order of their annotations.
+    for name, arg in zip(paramlist, pure_args):
         checkable_args[name] = arg
 
     # Check for mismatch between lengths of arguments/annotations.
-- 
2.43.0


From 7090ed86058d9998a587ba1bffd9f7d400dbd6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 08/45] fix: raise TypeError for an unknown keyword argument

f(y=...) on a function of x raised KeyError from inside the typechecker.
---
 asta/decorators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asta/decorators.py b/asta/decorators.py
index ecfe9e3..b8f7c23 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -31,6 +31,9 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     sig = inspect.signature(decorated)
     paramlist = list(sig.parameters)
 
+    # Raise a ``TypeError`` if the function cannot be called with these arguments.
+    sig.bind(*args, **kwargs)
+
     # Get a list of kwargs with defaults filled-in.
     defaults: Dict[str, Any] = {}
     for k, v in sig.parameters.items():
-- 
2.43.0


From 8b7bab04cd4ecc8b0b25074b4a585970d4da6492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 09/45] fix: support annotations with an origin that is not
 checked

Any annotation such as Callable[...], Iterable[...] or Literal[...] raised
KeyError (or, with check-non-asta-types, TypeError for a wrong number of
arguments) on every call.
---
 asta/origins.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 3f89059..70e25a3 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -552,12 +552,12 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        checker_function_map = ORIGIN_TYPE_CHECKERS
-        if ox.check_non_asta_types:
-            checker_function_map.update(NON_ASTA_CHECKERS)  # type: ignore
-        checker_fn: Callable = checker_function_map[origin]
-        if checker_fn:
+        if origin in ORIGIN_TYPE_CHECKERS:
+            checker_fn: Callable = ORIGIN_TYPE_CHECKERS[origin]
             equations = checker_fn(name, value, annotation, equations, ox)
+        elif origin in NON_ASTA_CHECKERS:
+            if ox.check_non_asta_types:
+                NON_ASTA_CHECKERS[origin](name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
     elif inspect.isclass(annotation):
-- 
2.43.0


From 1cf2b41de09fdd8a1ba1f822a8954aedeefd2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 10/45] fix: check the fields of named tuples on Python 3.9 and
 later

They were found through NamedTuple._field_types, which no longer exists.
---
 asta/origins.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 70e25a3..0ae4212 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -18,6 +18,7 @@ from typing import (
     Callable,
     Sequence,
     AbstractSet,
+    get_type_hints,
 )
 
 from oxentiel import Oxentiel
@@ -271,14 +272,14 @@ def check_tuple(
     """ Check an argument with annotation ``tuple`` or ``Tuple[]``. """
 
     # Specialized check for NamedTuples.
-    if hasattr(annotation, "_field_types"):
+    if hasattr(annotation, "_fields"):
 
         if not isinstance(value, annotation):
             fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)
             return equations
 
-        # pylint: disable=protected-access
-        for subname, field_type in annotation._field_types.items():
+        # The ``_field_types`` attribute was removed in Python 3.9.
+        for subname, field_type in get_type_hints(annotation).items():
             equations = check_annotation(
                 f"{name}.{subname}", getattr(value, subname), field_type, equations, ox
             )
-- 
2.43.0


From 84298162c9af7b665236d7bd6c9d5df8ffc753ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 11/45] fix: only accept the empty tuple for Tuple[()] on
 Python 3.11 and later

---
 asta/origins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 0ae4212..b1f766d 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -287,10 +287,15 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
-    elif not getattr(annotation, "__args__", None):
+    elif getattr(annotation, "__args__", None) is None:
         # Unparametrized Tuple or plain tuple.
         pass
 
+    elif not annotation.__args__:
+        # ``Tuple[()]`` on Python 3.11+
+        if value != ():
+            fail_empty_tuple(name, qualified_name(value), ox)
+
     else:
         # Python 3.6+
         use_ellipsis = annotation.__args__[-1] is Ellipsis
-- 
2.43.0


From 022d9bd323d8460133b2a7efd70daad439182e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 12/45] fix: support unparametrized generics on Python 3.9 and
 later

List, Dict, Set, Sequence and Callable without arguments have no __args__
there, so every call raised AttributeError.
---
 asta/origins.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index b1f766d..b102bf0 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -213,7 +213,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
 
-    if annotation.__args__:
+    if getattr(annotation, "__args__", None):
         try:
             signature = inspect.signature(value)
         except (TypeError, ValueError):
@@ -329,6 +329,13 @@ def check_tuple(
     return equations
 
 
+def is_parametrized(annotation: Any) -> bool:
+    """ Whether ``annotation`` is e.g. ``List[int]``, not ``List`` or ``List[T]``. """
+    # Unparametrized generics have no ``__args__`` on Python 3.9+.
+    args = getattr(annotation, "__args__", None)
+    return args is not None and args != annotation.__parameters__
+
+
 def check_list(
     name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel
 ) -> Set[Expr]:
@@ -338,7 +345,7 @@ def check_list(
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
 
@@ -362,7 +369,7 @@ def check_sequence(
         fail_sequence(name, annotation, qualified_name(value), ox)
 
     # Consider removing this test or even just figuring out what it does?
-    if annotation.__args__ not in (None, annotation.__parameters__):
+    if is_parametrized(annotation):
         value_type = annotation.__args__[0]
         if value_type is not Any:
 
@@ -387,7 +394,7 @@ def check_dict(
 
     # Equivalently: if annotation is ``Dict[*]``.
     elif annotation is not dict:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             key_type, value_type = annotation.__args__
             if key_type is not Any or value_type is not Any:
                 for k, v in value.items():
@@ -412,7 +419,7 @@ def check_set(
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
-        if annotation.__args__ not in (None, annotation.__parameters__):
+        if is_parametrized(annotation):
             value_type = annotation.__args__[0]
             if value_type is not Any:
                 for v in value:
-- 
2.43.0


From cad93aa4749fa8aeafbf240f5be93194d4c825d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 13/45] fix: count optional parameters of a callable

A function with a default value was rejected for a Callable[[...], ...] that
passes a value for that parameter.
---
 asta/origins.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index b102bf0..43c3e26 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -240,16 +240,20 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
                 # NOTE: Should this output a warning?
                 return
 
+            positional_args = [
+                param
+                for param in signature.parameters.values()
+                if param.kind
+                in (
+                    inspect.Parameter.POSITIONAL_ONLY,
+                    inspect.Parameter.POSITIONAL_OR_KEYWORD,
+                )
+            ]
             num_mandatory_args = len(
                 [
                     param.name
-                    for param in signature.parameters.values()
-                    if param.kind
-                    in (
-                        inspect.Parameter.POSITIONAL_ONLY,
-                        inspect.Parameter.POSITIONAL_OR_KEYWORD,
-                    )
-                    and param.default is inspect.Parameter.empty
+                    for param in positional_args
+                    if param.default is inspect.Parameter.empty
                 ]
             )
             has_varargs = any(
@@ -261,8 +265,8 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
             # NOTE: Consider adding true recursive checking.
             if num_mandatory_args > len(argument_types):
                 fail_too_many_args(name, len(argument_types), num_mandatory_args, ox)
-            elif not has_varargs and num_mandatory_args < len(argument_types):
-                fail_too_few_args(name, len(argument_types), num_mandatory_args, ox)
+            elif not has_varargs and len(positional_args) < len(argument_types):
+                fail_too_few_args(name, len(argument_types), len(positional_args), ox)
     return
 
 
-- 
2.43.0


From 0989bd467f32d54a0157da60842beb136466e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 14/45] fix: concatenate a tuple and a shape placeholder

(1,) + shapes.X raised TypeError unless shapes.X was already set.
---
 asta/placeholder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asta/placeholder.py b/asta/placeholder.py
index fdbed3e..e7ea5fe 100644
--- a/asta/placeholder.py
+++ b/asta/placeholder.py
@@ -56,3 +56,11 @@ class Placeholder:
         result.contents = sum_contents
         result.composite = True
         return result
+
+    def __radd__(self, summand: Any) -> Any:
+        """ Return the concatenation for a tuple on the left. """
+        if not isinstance(summand, tuple):
+            return NotImplemented
+        result = self + summand
+        result.contents = [result.contents.pop()] + result.contents
+        return result
-- 
2.43.0


From 62e5efc10fcbef63fbc2c6aed535ca8331f0f424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 15/45] fix: match arrays of any unit for datetime and
 timedelta

Array[datetime.datetime] only matched the dtype without a unit, which no
datetime array has.
---
 asta/_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asta/_array.py b/asta/_array.py
index ef7f008..a1ad580 100644
--- a/asta/_array.py
+++ b/asta/_array.py
@@ -121,8 +121,10 @@ class _Array(metaclass=_ArrayMeta):
                 kind = NP_UNSIZED_TYPE_KINDS[item]
             elif item == datetime.datetime:
                 generic_type = np.datetime64
+                kind = "M"
             elif item == datetime.timedelta:
                 generic_type = np.timedelta64
+                kind = "m"
             else:
                 generic_type = item
             dtype = np.dtype(generic_type)
-- 
2.43.0


From 1f1ae3cb41bf2b53b357e066e4cc39ec80b0ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 16/45] fix: keep the shape when an alias is subscripted with a
 dtype

Array[3][float] lost its shape, as did Array[3][{...}], although
Array[float][3] keeps its dtype.
---
 asta/parser.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asta/parser.py b/asta/parser.py
index 799491f..7c6da9c 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -46,12 +46,10 @@ def parse_subscript(
     isscalar = item is Scalar
     if isinstance(item, (type, dtype_metaclass)) and not isscalar:
         dtype, kind = cls.get_dtype(item)
-        shape = None
 
     # Adding support for kwargs.
     elif isinstance(item, dict):
         kwattrs = item
-        shape = None
 
     # Case where dtype is Any and shape is scalar.
     elif item in (Scalar, ()):
-- 
2.43.0


From 9e123acdc4bed4543b428c3deac7ec282d73febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 17/45] fix: accept a TensorShape after the dtype of a TFTensor

TFTensor[tf.int32, t.shape] raised ValueError from the comparison of the
TensorShape with the dimensions.
---
 asta/_tftensor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asta/_tftensor.py b/asta/_tftensor.py
index eb56a02..60c7248 100644
--- a/asta/_tftensor.py
+++ b/asta/_tftensor.py
@@ -127,6 +127,13 @@ class _TFTensor(metaclass=_TFTensorMeta):
         """ Set class attributes based on the passed dtype/dim data. """
         if isinstance(item, tf.TensorShape):
             item = tuple(item)
+
+        # Also convert ``TFTensor[<dtype>, <TensorShape>]``.
+        elif isinstance(item, tuple):
+            item = tuple(
+                tuple(elem) if isinstance(elem, tf.TensorShape) else elem
+                for elem in item
+            )
         dtype, shape, kwattrs, _ = parse_subscript(cls, item, tf.dtypes.DType)
         cls.dtype = dtype
         cls.shape = shape
-- 
2.43.0


From 147a0a06f4f83d24767196ee55e7441b92d22b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 18/45] fix: do not store the environment switch in the
 configuration

Once ASTA_TYPECHECK=0 had been seen, functions decorated after it was set to 1
(or removed) were never checked.
---
 asta/decorators.py | 5 +++--
 asta/warning.py    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index b8f7c23..81eb4c9 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -88,9 +88,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
         The decorated version of ``decorated``.
     """
     ox: Oxentiel = get_ox()
+    enabled: bool = ox.on
     if "ASTA_TYPECHECK" in os.environ:
-        ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-    if not ox.on:
+        enabled = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
+    if not enabled:
         return decorated
 
     # Treat classes.
diff --git a/asta/warning.py b/asta/warning.py
index c04496e..f04ffbb 100644
--- a/asta/warning.py
+++ b/asta/warning.py
@@ -11,9 +11,10 @@ from asta.constants import Color
 # pylint: disable=invalid-name
 
 ox: Oxentiel = get_ox()
+ENABLED: bool = ox.on
 if "ASTA_TYPECHECK" in os.environ:
-    ox.on = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
-if ox.on and not ox.print_passes:
+    ENABLED = ox.on and os.environ["ASTA_TYPECHECK"] == "1"
+if ENABLED and not ox.print_passes:
     BORDER = "#" * 100
     BORDER = f"{Color.BOLD}{BORDER}{Color.END}"
     INNER = "-" * 100
-- 
2.43.0


From fed9708eb19f1f8377ad4fd00ddf830c6a4bcad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 19/45] fix: stop at a value of the wrong type when errors are
 not raised

With raise-errors=no a failed check is only printed, and the checks of
lists, sequences, sets, callables and classes went on to look at the
contents of the wrong value, which could raise.
---
 asta/origins.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 43c3e26..20227a7 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -212,6 +212,7 @@ def check_callable(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
     """ Check an argument with annotation ``callable`` or ``Callable[]``. """
     if not callable(value):
         fail_callable(name, annotation, qualified_name(value), ox)
+        return
 
     if getattr(annotation, "__args__", None):
         try:
@@ -346,6 +347,7 @@ def check_list(
     """ Check an argument with annotation ``list`` or ``List[]``. """
     if not isinstance(value, list):
         fail_list(name, annotation, qualified_name(value), ox)
+        return equations
 
     # If annotation is a subscriptable generic (``List[...]``).
     if annotation is not list:
@@ -371,6 +373,7 @@ def check_sequence(
     """ Check an argument with annotation ``Sequence[*]``. """
     if not isinstance(value, collections.abc.Sequence):
         fail_sequence(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Consider removing this test or even just figuring out what it does?
     if is_parametrized(annotation):
@@ -420,6 +423,7 @@ def check_set(
     """ Check an argument with annotation ``Set[*]``. """
     if not isinstance(value, AbstractSet):
         fail_set(name, annotation, qualified_name(value), ox)
+        return equations
 
     # Equivalently: if annotation is ``Set[*]``.
     if annotation is not set:
@@ -462,6 +466,7 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Check an arbitrary class. """
     if not inspect.isclass(value):
         fail_class(name, annotation, qualified_name(value), ox)
+        return
 
     # Needed on Python 3.7+
     if annotation is Type:
-- 
2.43.0


From 7666ecb85caec7dc7af518460cbf0966f78815cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 20/45] fix: report a failed union when errors are not raised

The types of a union were tried until one of them did not raise, so with
raise-errors=no the first one always passed.
---
 asta/origins.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 20227a7..1be7bb3 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -450,12 +450,18 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
-    for type_ in union_params:
-        try:
-            equations = check_annotation(name, value, type_, equations, ox)
-            return equations
-        except TypeError as _err:
-            pass
+    # We need to know which of the types fail, even if errors are only printed.
+    raise_errors = ox.raise_errors
+    ox.raise_errors = True
+    try:
+        for type_ in union_params:
+            try:
+                equations = check_annotation(name, value, type_, equations, ox)
+                return equations
+            except TypeError as _err:
+                pass
+    finally:
+        ox.raise_errors = raise_errors
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From 0a19baeb2b07290d52fd182e62f90b3f0af4b40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 21/45] fix: skip the check of annotations with uninitialized
 dimensions

As for shape placeholders, a dimension without a value is reported, and
the check is not done with a symbol in its place, which would be inferred.
---
 asta/substitution.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/substitution.py b/asta/substitution.py
index 3bd8ea5..eb2423e 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -61,6 +61,7 @@ def substitute(
                         if name not in uninitialized_names:
                             fail_uninitialized(name, ox)
                         uninitialized_names.add(name)
+                        initialized = False
                     else:
                         # Otherwise, we substitute in their values with sympy.
                         expression = expression.subs(symbol, value)
-- 
2.43.0


From 1cdb2b139b73fa5ac7f9152ba7e3cd5018e9907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:59 +0000
Subject: [PATCH 22/45] fix: do not treat a negative result of an expression as
 a wildcard

With dims.X = 3 the expression X - 4 became the size -1, which is the
wildcard that matches any size.
---
 asta/substitution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/substitution.py b/asta/substitution.py
index eb2423e..76af135 100644
--- a/asta/substitution.py
+++ b/asta/substitution.py
@@ -70,7 +70,11 @@ def substitute(
             if isinstance(expression, Number):
                 if not isinstance(expression, Integer):
                     fail_numerical_expression(shape[i], expression, ox)
-                expression = int(expression)
+
+                # The value of a placeholder can be the wildcard ``-1``, but a
+                # negative result of a computation doesn't match any size.
+                if isinstance(item, Symbol) or expression >= 0:
+                    expression = int(expression)
             dimension_sizes.append(expression)
 
         # Case 2: ``item`` is a placeholder.
-- 
2.43.0


From 8d7df3e0159d60c1193c957411431fe4c955c41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 23/45] fix: read the configuration from setup.cfg and
 pyproject.toml

They are documented, but only files named astarc were ever used.
---
 asta/config.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/asta/config.py b/asta/config.py
index 2957082..66031fc 100644
--- a/asta/config.py
+++ b/asta/config.py
@@ -70,11 +70,8 @@ def find_default_config_files() -> Generator[str, None, None]:
 
 
 def find_astarc() -> Optional[str]:
-    """ Look for an ``astarc`` file. Return it if found, else return ``None``. """
-    for config_file in find_default_config_files():
-        if config_file.endswith("astarc"):
-            return config_file
-    return None
+    """ Look for a config file. Return it if found, else return ``None``. """
+    return next(find_default_config_files(), None)
 
 
 # pylint: disable=protected-access
@@ -98,10 +95,11 @@ def read_config(config_path: str) -> configparser.ConfigParser:
             parser.read_file(config_file)
 
         # Normalize sections' titles.
-        for sect, values in list(parser._sections.items()):  # type: ignore
+        for title, values in list(parser._sections.items()):  # type: ignore
+            sect = title
             if sect.startswith("asta."):
                 sect = sect[len("asta.") :]
-            if not sect.isupper() and values:
+            if sect.upper() != title and values:
                 parser._sections[sect.upper()] = values  # type: ignore[attr-defined]
     return parser
 
@@ -111,7 +109,8 @@ def as_dict(config: configparser.ConfigParser) -> Dict[str, Dict[str, str]]:
     dictionary: Dict[str, Dict[str, str]] = collections.OrderedDict()
     for section in config.sections():
         dictionary[section] = {}
-        for key, val in config.items(section):
+        # Sections of other tools may contain anything, and TOML has booleans.
+        for key, val in config.items(section, raw=True):
             dictionary[section][key] = val
     return dictionary
 
-- 
2.43.0


From a2c26a1a1aaee6617c3a38bd37173d02de5a1dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 24/45] fix: support annotations with subclasses of dict

All classes have annotations on Python 3.10 and later, so any subclass of
dict was taken for a TypedDict, and the check raised AttributeError.
---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 1be7bb3..e81f534 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -595,7 +595,7 @@ def check_annotation(
 
         if issubclass(annotation, Tuple):  # type: ignore[arg-type]
             equations = check_tuple(name, value, annotation, equations, ox)
-        elif issubclass(annotation, dict) and hasattr(annotation, "__annotations__"):
+        elif issubclass(annotation, dict) and hasattr(annotation, "__total__"):
             equations = check_typed_dict(name, value, annotation, equations, ox)
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
-- 
2.43.0


From 50163a5c3ce8b7130956e5101efdeb914428f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 25/45] fix: support Any as an annotation on Python 3.11 and
 later

Any is a class there, and can't be used with isinstance(), so the checks
with check-non-asta-types=yes raised TypeError for it.
---
 asta/origins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index e81f534..69e2107 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -479,6 +479,8 @@ def check_class(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
         return
 
     expected_class = annotation.__args__[0] if annotation.__args__ else None
+    if expected_class is Any:
+        return
     if expected_class and not issubclass(value, expected_class):
         supercls = qualified_name(expected_class)
         fail_subclass(name, supercls, qualified_name(value), ox)
@@ -575,6 +577,10 @@ def check_annotation(
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
+    # This is a class on Python 3.11+.
+    if annotation is Any:
+        return equations
+
     # Treat asta types.
     if isinstance(annotation, SubscriptableMeta):
         equations = check_asta(name, value, annotation, equations, ox)
-- 
2.43.0


From f71bb1fc8fa49ced3819bd51e4a545ca21c0057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:17 +0000
Subject: [PATCH 26/45] fix: verify the dimensions of a tuple after a dtype

Array[1, 1.5] raised TypeError, but Array[float, (1, 1.5)] gave a type that
no array could match.
---
 asta/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/parser.py b/asta/parser.py
index 7c6da9c..6284f89 100644
--- a/asta/parser.py
+++ b/asta/parser.py
@@ -76,6 +76,10 @@ def parse_subscript(
             kwattrs = item[-1]
             item = item[:-1]
 
+        # ``((1,2,3),)`` -> ``(1,2,3)``.
+        if len(item) == 1 and isinstance(item[0], tuple) and item[0]:
+            item = item[0]
+
         if item:
             verify_dimensions(cls, item)
             shape = SubscriptableMeta.get_shape(item)
-- 
2.43.0


From 8a03a042215460e7552160f443d319bd4402bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 27/45] fix: reject boolean attributes for symbolic values

---
 asta/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/utils.py b/asta/utils.py
index d9f5522..d5783aa 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -143,8 +143,8 @@ def attrcheck(
             match = False
             break
         if isinstance(value, Expr):
-            # Only a number can satisfy an equation.
-            if not isinstance(attr, (Number, Expr)):
+            # Only a number can satisfy an equation, and a bool has no arithmetic.
+            if not isinstance(attr, (Number, Expr)) or isinstance(attr, bool):
                 match = False
                 break
             equations.add(value - attr)
-- 
2.43.0


From 337ad58a0160d9eda21b042fd6b9c43c600736dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 28/45] fix: do not check a reference passed by keyword

---
 asta/decorators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asta/decorators.py b/asta/decorators.py
index 81eb4c9..30d7ab0 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -49,6 +49,7 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
+        checkable_args.pop(paramlist[0], None)
         paramlist = paramlist[1:]
 
     # Parameters are not necessarily in the order of their annotations.
-- 
2.43.0


From 50400dae60b3e7d3ca3468f2a5b88c4bf85b7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 29/45] fix: check values annotated with None

---
 asta/origins.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 69e2107..0e54224 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -577,6 +577,10 @@ def check_annotation(
     # Get origin type.
     origin: Any = getattr(annotation, "__origin__", None)
 
+    # As for any other annotation, ``None`` stands for its type.
+    if annotation is None:
+        annotation = NoneType
+
     # This is a class on Python 3.11+.
     if annotation is Any:
         return equations
-- 
2.43.0


From 97364657b7c5fa204860ed3364eaf4670035a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 30/45] fix: take a union member that agrees with the known
 symbols

---
 asta/origins.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 0e54224..e2ed363 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -25,7 +25,7 @@ from oxentiel import Oxentiel
 from sympy.core.expr import Expr
 
 from asta.array import Array
-from asta.utils import attrcheck, shapecheck
+from asta.utils import attrcheck, shapecheck, astasolver
 from asta._array import _ArrayMeta
 from asta.classes import SubscriptableMeta
 from asta.display import (
@@ -456,10 +456,13 @@ def check_union(
     try:
         for type_ in union_params:
             try:
-                equations = check_annotation(name, value, type_, equations, ox)
-                return equations
+                type_equations = check_annotation(name, value, type_, equations, ox)
             except TypeError as _err:
-                pass
+                continue
+
+            # The type must also agree with the equations we already have.
+            if astasolver(set(type_equations))[0]:
+                return type_equations
     finally:
         ox.raise_errors = raise_errors
 
-- 
2.43.0


From 818e872f00df15ed8d55e993be750a5a7d7bbf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 31/45] fix: check unions written with |

---
 asta/origins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index e2ed363..97fa4be 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
+import types
 import inspect
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
@@ -80,6 +81,9 @@ try:
 except ImportError:
     Literal = None
 
+# The type of ``X | Y`` on Python 3.10+.
+UnionType: Any = getattr(types, "UnionType", ())
+
 # pylint: disable=too-many-lines, too-many-nested-blocks, too-many-branches
 
 
@@ -601,6 +605,8 @@ def check_annotation(
                 NON_ASTA_CHECKERS[origin](name, value, annotation, ox)
         else:
             equations = check_annotation(name, value, origin, equations, ox)
+    elif isinstance(annotation, UnionType):
+        equations = check_union(name, value, annotation, equations, ox)
     elif inspect.isclass(annotation):
 
         subclass_callable: bool = issubclass(annotation, Callable)  # type: ignore
-- 
2.43.0


From 54a5ee1a17338112f1afbbecb09c534fdaebba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 32/45] fix: compare literals only with values of their type

---
 asta/origins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 97fa4be..9b1b429 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -523,7 +523,8 @@ def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None
 
 def check_literal(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck a value annotated with ``Literal[*]``. """
-    if value not in annotation.__args__:
+    # Only compare with literals of the same type, ``==`` of arrays is elementwise.
+    if not any(isinstance(value, type(x)) and value == x for x in annotation.__args__):
         fail_literal(name, annotation.__args__, value, ox)
 
 
-- 
2.43.0


From 938f4568fee592733ce8beec20fb129ac245001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:50 +0000
Subject: [PATCH 33/45] fix: enforce subclasses of float and complex

---
 asta/origins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 9b1b429..8290e37 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -620,7 +620,7 @@ def check_annotation(
         elif annotation == NoneType:
             check_none(name, value, annotation, ox)
         elif ox.check_non_asta_types:
-            if issubclass(annotation, (float, complex)):
+            if annotation in (float, complex):
                 check_number(name, value, annotation, ox)
             elif subclass_callable and has_args:
                 # Needed on Python 3.5.0 to 3.5.2
-- 
2.43.0


From 03ac04c343ca806219097138e1243647d24e05e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:10 +0000
Subject: [PATCH 34/45] fix: check protocols only if they are runtime protocols

---
 asta/origins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 8290e37..1e0bf53 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -517,7 +517,11 @@ def check_io(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
 
 def check_protocol(name: str, value: Any, annotation: Any, ox: Oxentiel) -> None:
     """ Typecheck arguments with protocol annotations. """
-    if not issubclass(type(value), annotation):
+    # Only runtime protocols can be checked, and only instances of these if they
+    # have members which aren't methods.
+    if not getattr(annotation, "_is_runtime_protocol", False):
+        return
+    if not isinstance(value, annotation):
         fail_protocol(name, type(value).__qualname__, annotation.__qualname__, ox)
 
 
-- 
2.43.0


From 538f67cb42f8a8d3a607163d05cc8b6d3db53f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:30 +0000
Subject: [PATCH 35/45] fix: enforce subclasses of tuple

---
 asta/origins.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 1e0bf53..1962c7b 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -296,8 +296,13 @@ def check_tuple(
     elif not isinstance(value, tuple):
         fail_tuple(name, qualified_name(value), ox)
 
+    elif isinstance(annotation, type) and not hasattr(annotation, "__origin__"):
+        # Plain tuple or a subclass.
+        if not isinstance(value, annotation):
+            fail_fallback(name, qualified_name(annotation), qualified_name(value), ox)
+
     elif getattr(annotation, "__args__", None) is None:
-        # Unparametrized Tuple or plain tuple.
+        # Unparametrized Tuple.
         pass
 
     elif not annotation.__args__:
-- 
2.43.0


From f9ea9be0b999a037799a04f89e85017a6257fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 36/45] fix: decorate nested classes without class annotations

---
 asta/decorators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 30d7ab0..a28fb5c 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -110,9 +110,10 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
                 or inspect.ismethod(attr)
                 or inspect.isclass(attr)
             ):
-                # If the name prefix matches and it has annotations.
-                if attr.__qualname__.startswith(prefix) and getattr(
-                    attr, "__annotations__", None
+                # If the name prefix matches and it has annotations. The methods of
+                # a class may have annotations even if the class itself does not.
+                if attr.__qualname__.startswith(prefix) and (
+                    inspect.isclass(attr) or getattr(attr, "__annotations__", None)
                 ):
 
                     # Decorate the method/function/class.
-- 
2.43.0


From dc1ade0a03a60e6ce8bbaed123ca1e1c3a7d615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 37/45] fix: leave class and static methods from elsewhere
 alone

---
 asta/decorators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index a28fb5c..241bfe0 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -122,8 +122,12 @@ def typechecked(decorated):  # type: ignore[no-untyped-def]
             # Only for class and staticmethods; instance methods are caught above.
             elif isinstance(attr, (classmethod, staticmethod)):
 
-                # If the underlying function has annotations.
-                if getattr(attr.__func__, "__annotations__", None):
+                # If the name prefix matches and the underlying function has
+                # annotations. Otherwise it's defined or decorated elsewhere.
+                name = getattr(attr.__func__, "__qualname__", "")
+                if name.startswith(prefix) and getattr(
+                    attr.__func__, "__annotations__", None
+                ):
                     wrapped = typechecked(attr.__func__)
 
                     # Re-wrap with ``classmethod`` or ``staticmethod`` and put back.
-- 
2.43.0


From 7a3105410566b3280977a6e8d8e900aa05dd8f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 38/45] fix: do not check the reference of a named tuple

---
 asta/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index 241bfe0..cfa715d 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -45,7 +45,7 @@ def validate_annotations(  # type: ignore[no-untyped-def]
 
     # Remove unannotated instance/class/metaclass reference.
     pure_args = args
-    refs = ("self", "cls", "mcs")
+    refs = ("self", "cls", "mcs", "_cls")
 
     if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
         pure_args = pure_args[1:]  # type: ignore[assignment]
-- 
2.43.0


From 2c0615018a1d55c84c38d48bc3a5b4b4d5887c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 39/45] fix: raise ImportError when checking against an
 unavailable class

---
 asta/origins.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/origins.py b/asta/origins.py
index 1962c7b..97c3809 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -59,6 +59,7 @@ from asta.display import (
     fail_too_many_args,
     type_representation,
 )
+from asta.unusable import UnusableMeta
 from asta.constants import _TORCH_IMPORTED, _TENSORFLOW_IMPORTED, NoneType, tf, torch
 from asta.substitution import substitute
 
@@ -91,6 +92,11 @@ def refresh(
     annotation: SubscriptableMeta, ox: Oxentiel
 ) -> Tuple[SubscriptableMeta, bool]:
     """ Load an asta type annotation containing classical placeholders. """
+    # pylint: disable=protected-access
+    # Raise an ``ImportError`` if the library isn't installed.
+    if isinstance(annotation, UnusableMeta):
+        annotation._import()
+
     dtype = annotation.dtype
     shape = annotation.shape
     dimvars: List[Any] = []
-- 
2.43.0


From 5dfd86081583a27dab8421f92b41fb1eb62d11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 40/45] fix: check the first element of sequences which cannot
 be sliced

With check-all-sequence-elements=no, a deque was never accepted.
---
 asta/origins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asta/origins.py b/asta/origins.py
index 97c3809..708028c 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -3,6 +3,7 @@
 """ Functions for checking type annotations and their origin types. """
 import types
 import inspect
+import itertools
 import collections
 from io import IOBase, RawIOBase, TextIOBase, BufferedIOBase
 from typing import (
@@ -397,7 +398,7 @@ def check_sequence(
 
             value_iterable = value
             if not ox.check_all_sequence_elements:
-                value_iterable = value_iterable[:1]
+                value_iterable = itertools.islice(value_iterable, 1)
             for i, v in enumerate(value_iterable):
                 element_equations = check_annotation(
                     f"{name}[{i}]", v, value_type, equations, ox
-- 
2.43.0


From 119d158847a1c8a8bedd2d5426da5aea6e2481d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 41/45] fix: use the required keys of a typed dictionary

Whether a key may be missing depends on the class that declares it, and on
``Required`` and ``NotRequired``, whose arguments were not checked.
---
 asta/origins.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 708028c..2db8d64 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -2,6 +2,7 @@
 # -*- coding: utf-8 -*-
 """ Functions for checking type annotations and their origin types. """
 import types
+import typing
 import inspect
 import itertools
 import collections
@@ -83,6 +84,10 @@ try:
 except ImportError:
     Literal = None
 
+# These say which keys of a typed dictionary may be missing, on Python 3.11+.
+Required: Any = getattr(typing, "Required", None)
+NotRequired: Any = getattr(typing, "NotRequired", None)
+
 # The type of ``X | Y`` on Python 3.10+.
 UnionType: Any = getattr(types, "UnionType", ())
 
@@ -203,10 +208,13 @@ def check_typed_dict(
     if extra_keys:
         fail_keys(name, expected_keys, existing_keys, ox)
 
-    if annotation.__total__:
-        missing_keys = expected_keys - existing_keys
-        if missing_keys:
-            fail_keys(name, expected_keys, existing_keys, ox)
+    # A subclass may have another ``__total__`` than its bases (Python 3.9+).
+    required_keys = expected_keys if annotation.__total__ else frozenset()
+    required_keys = getattr(annotation, "__required_keys__", required_keys)
+
+    missing_keys = required_keys - existing_keys
+    if missing_keys:
+        fail_keys(name, expected_keys, existing_keys, ox)
 
     # pylint: disable=invalid-name
     MISSING_VALUE = object()
@@ -614,7 +622,10 @@ def check_annotation(
         equations = check_asta(name, value, annotation, equations, ox)
 
     elif origin is not None:
-        if origin in ORIGIN_TYPE_CHECKERS:
+        if origin in (Required, NotRequired):
+            elem_type = annotation.__args__[0]
+            equations = check_annotation(name, value, elem_type, equations, ox)
+        elif origin in ORIGIN_TYPE_CHECKERS:
             checker_fn: Callable = ORIGIN_TYPE_CHECKERS[origin]
             equations = checker_fn(name, value, annotation, equations, ox)
         elif origin in NON_ASTA_CHECKERS:
-- 
2.43.0


From 895fe8bb722989ce4c1964bbefc9181b37e7951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 42/45] fix: do not change the configuration while a union is
 checked

It is shared: a mismatch in another thread was raised instead of printed, and
two overlapping checks could leave raise-errors switched on.
---
 asta/origins.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 2db8d64..4720177 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -474,21 +474,21 @@ def check_union(
         # Python 3.6+
         union_params = annotation.__args__
 
-    # We need to know which of the types fail, even if errors are only printed.
-    raise_errors = ox.raise_errors
-    ox.raise_errors = True
-    try:
-        for type_ in union_params:
-            try:
-                type_equations = check_annotation(name, value, type_, equations, ox)
-            except TypeError as _err:
-                continue
-
-            # The type must also agree with the equations we already have.
-            if astasolver(set(type_equations))[0]:
-                return type_equations
-    finally:
-        ox.raise_errors = raise_errors
+    # We need to know which of the types fail, even if errors are only printed. The
+    # configuration itself may be in use by other threads.
+    settings = {k: v for k, v in ox.settings.items() if k != "decorated"}
+    settings["raise_errors"] = True
+    strict = Oxentiel(settings)
+
+    for type_ in union_params:
+        try:
+            type_equations = check_annotation(name, value, type_, equations, strict)
+        except TypeError as _err:
+            continue
+
+        # The type must also agree with the equations we already have.
+        if astasolver(set(type_equations))[0]:
+            return type_equations
 
     typelist = ", ".join(get_type_name(t) for t in union_params)
     fail_union(name, typelist, qualified_name(value), ox)
-- 
2.43.0


From 85f9a0b8cde34f01a3a09219be6c4d9b1244c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:48 +0000
Subject: [PATCH 43/45] fix: the message about a tuple of the wrong length
 named the lengths the wrong way round

---
 asta/origins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asta/origins.py b/asta/origins.py
index 4720177..2e6f0ff 100644
--- a/asta/origins.py
+++ b/asta/origins.py
@@ -346,8 +346,8 @@ def check_tuple(
                 fail_empty_tuple(name, qualified_name(value), ox)
         else:
             if len(value) != len(tuple_params):
-                ann_rep = qualified_name(annotation)
-                fail_tuple_length(name, len(tuple_params), ann_rep, len(value), ox)
+                ann_rep = str(annotation)
+                fail_tuple_length(name, len(value), ann_rep, len(tuple_params), ox)
                 return equations
 
             for i, (elem, elem_type) in enumerate(zip(value, tuple_params)):
-- 
2.43.0


From ceac48f3e0c910825e455d588db582f97aa01b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 44/45] fix: a parameter without annotation after an annotated
 self raised KeyError

---
 asta/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asta/decorators.py b/asta/decorators.py
index cfa715d..19fa231 100644
--- a/asta/decorators.py
+++ b/asta/decorators.py
@@ -47,7 +47,11 @@ def validate_annotations(  # type: ignore[no-untyped-def]
     pure_args = args
     refs = ("self", "cls", "mcs", "_cls")
 
-    if len(sig.parameters) == num_non_return_annots + 1 and paramlist[0] in refs:
+    if (
+        len(sig.parameters) == num_non_return_annots + 1
+        and paramlist[0] in refs
+        and paramlist[0] not in annotations
+    ):
         pure_args = pure_args[1:]  # type: ignore[assignment]
         checkable_args.pop(paramlist[0], None)
         paramlist = paramlist[1:]
-- 
2.43.0


From 641300263f4ab3497e10a748e3532b653eeed163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 45/45] fix: an attribute that is an array raised ValueError in
 place of a verdict

---
 asta/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asta/utils.py b/asta/utils.py
index d5783aa..3bb9e36 100644
--- a/asta/utils.py
+++ b/asta/utils.py
@@ -5,6 +5,7 @@ import random
 from numbers import Number
 from typing import Any, Set, Dict, List, Tuple, Union, Optional
 
+import numpy as np
 from sympy import solvers, simplify
 from sympy.core.expr import Expr
 from sympy.core.symbol import Symbol
@@ -148,6 +149,11 @@ def attrcheck(
                 match = False
                 break
             equations.add(value - attr)
+        elif isinstance(attr, np.ndarray) or isinstance(value, np.ndarray):
+            # The operators of arrays are elementwise.
+            if not np.array_equal(attr, value):
+                match = False
+                break
         elif attr != value:
             match = False
             break
-- 
2.43.0

