"""
The planted bugs: each was written from the text of a property and from the
code, not from what the checks do.  ``tools/seed.py`` turns them into
``seeded/<id>/``.
"""

PRELUDE = '''
"""Exits 0 when the property holds, 1 when it does not."""
import contextlib
import io
import sys


def quiet(function, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        result = function(*args, **kwargs)
    return result, out.getvalue()


def accepts(function, *args, **kwargs):
    try:
        quiet(function, *args, **kwargs)
    except TypeError:
        return False
    return True


def must(condition, message):
    if not condition:
        print("BROKEN:", message)
        sys.exit(1)

'''.lstrip()

SEEDS = [
    dict(
        id="c01-negative-sizes", property="C01",
        needs="a pattern with a negative integer other than -1",
        what_it_breaks="Array[-2] accepts every positive size, although only -1 is a wildcard",
        edits=[("utils.py", "((x == -1 and y != 0) or (y == -1 and x != 0))",
                "((x < 0 and y != 0) or (y < 0 and x != 0))")],
        demo='''
import numpy as np
from asta import Array
must(isinstance(np.zeros((3,)), Array[-1]), "wildcard")
must(not isinstance(np.zeros((3,)), Array[-2]), "-2 is not a wildcard")
must(not isinstance(np.zeros((2, 3)), Array[..., -3]), "-3 is not a wildcard")
''',
    ),
    dict(
        id="c01-zero-after-ellipsis", property="C01",
        needs="a literal 0 next to an ellipsis",
        what_it_breaks="a pattern whose only zero is a literal one no longer matches when it also has an ellipsis",
        edits=[("utils.py", "    elif cls_shape == (Ellipsis,) and 0 in inst_shape:\n",
                "    elif cls_shape[-1] == Ellipsis and inst_shape[-1] == 0:\n")],
        demo='''
import numpy as np
from asta import Array
must(not isinstance(np.zeros((3, 0)), Array[3, ...]), "ellipsis never matches 0")
must(isinstance(np.zeros((3, 0)), Array[3, 0]), "literal zero")
must(isinstance(np.zeros((3, 0)), Array[3, 0, ...]), "literal zero before an empty ellipsis")
''',
    ),
    dict(
        id="c01-fragment-dedupe", property="C01", also=["C08"],
        needs="a pattern that repeats the same run of sizes on both sides of an ellipsis",
        what_it_breaks="equal fragments around ellipses are collapsed, so a shape with one occurrence matches",
        edits=[("utils.py", "            result.append(tuple(frag))\n            frag = []\n", "            if tuple(frag) not in result:\n                result.append(tuple(frag))\n            frag = []\n"),
               ("utils.py", "            frag.append(num)\n    result.append(tuple(frag))\n", "            frag.append(num)\n    if tuple(frag) not in result:\n        result.append(tuple(frag))\n")],
        demo='''
import numpy as np
from asta import Array
must(isinstance(np.zeros((2, 5, 2)), Array[2, ..., 2]), "2 ... 2")
must(not isinstance(np.zeros((2,)), Array[2, ..., 2]), "one 2 is not enough")
must(isinstance(np.zeros((4, 2, 3, 2)), Array[..., 2, ..., 2]), "two of them")
must(not isinstance(np.zeros((4, 2)), Array[..., 2, ..., 2]), "needs two of them")
''',
    ),
    dict(
        id="c02-tf-empty-tensor", property="C02",
        needs="a TensorFlow tensor with a zero-sized dimension and a pattern with a wildcard or an ellipsis",
        what_it_breaks="zero-sized TF tensors are compared literally with the pattern",
        edits=[("_tftensor.py", "                    inst_shape = tuple(inst_shape)\n",
                "                    inst_shape = tuple(inst_shape)\n"
                "                    if 0 in inst_shape and isinstance(cls.shape, tuple):\n"
                "                        return cls.shape == inst_shape\n"),
               ("_tftensor.py", "                # Cast instance shape to a tuple.\n",
                "                # Cast instance shape to a tuple; there is nothing to solve\n"
                "                # for a tensor without elements.\n")],
        demo='''
import numpy as np
import tensorflow as tf
from asta import Array, TFTensor
for pattern in [(0, 3), (0, -1), (0, ...), (..., 0), (-1, 3)]:
    must(isinstance(tf.zeros((0, 3)), TFTensor[pattern])
         == isinstance(np.zeros((0, 3)), Array[pattern]), str(pattern))
''',
    ),
    dict(
        id="c03-tf-complex", property="C03",
        needs="a complex tensor",
        what_it_breaks="TFTensor[complex] means complex64 instead of complex128",
        edits=[("constants.py", "    complex: tf.complex128,\n",
                "    complex: tf.complex64 if _TENSORFLOW_IMPORTED else tf.complex128,\n")],
        demo='''
import tensorflow as tf
from asta import TFTensor
must(isinstance(tf.zeros((2,), tf.complex128), TFTensor[complex]), "complex128")
must(not isinstance(tf.zeros((2,), tf.complex64), TFTensor[complex]), "complex64")
''',
    ),
    dict(
        id="c04-dim-subclasses", property="C04",
        needs="a dimension that is a bool",
        what_it_breaks="True and False are accepted as dimensions",
        edits=[("parser.py", "elif type(dim) not in cls.DIM_TYPES:",
                "elif not isinstance(dim, tuple(cls.DIM_TYPES)):")],
        demo='''
from asta import Array
must(not accepts(lambda: Array[3, True]), "a bool is not a dimension")
must(not accepts(lambda: Array[3, "x"]), "a string is not a dimension")
''',
    ),
    dict(
        id="c05-hash-of-repr", property="C05",
        needs="attributes given in a different order",
        what_it_breaks="equal types with attributes in another order have different hashes",
        edits=[("_array.py", '        """ Just calls __hash__ of SubscriptableMeta. """\n        return super().__hash__()',
                '        """ Equal types print the same. """\n        return hash(repr(cls))')],
        demo='''
from asta import Array
a = Array[int, 3, {"x": 1, "y": 2}]
b = Array[int, 3, {"y": 2, "x": 1}]
must(a == b, "equal")
must(hash(a) == hash(b), "hashes of equal types")
must(len({a, b}) == 1, "one type in a set")
''',
    ),
    dict(
        id="c06-kind-sticks", property="C06",
        needs="an alias with str whose dtype is replaced by an explicit one",
        what_it_breaks="the kind of the first dtype survives when the dtype is replaced",
        edits=[("parser.py", "        dtype, kind = cls.get_dtype(item)\n\n",
                "        dtype, new_kind = cls.get_dtype(item)\n        kind = new_kind or kind\n\n")],
        demo='''
import numpy as np
from asta import Array
alias = Array[str, 2]
must(isinstance(np.array(["a", "b"]), alias), "alias")
refined = alias[np.dtype("<U5")]
must(isinstance(np.array(["a", "b"], dtype="<U5"), refined), "same dtype")
must(not isinstance(np.array(["a", "b"], dtype="<U1"), refined), "another length")
must(isinstance(np.array([1, 2]), alias[int]), "another kind")
''',
    ),
    dict(
        id="c06-merged-attrs", property="C06",
        needs="an alias with attributes that is subscripted with other attributes",
        what_it_breaks="attributes are merged into those of the alias instead of replacing them, in the alias itself too",
        edits=[("parser.py", "    elif isinstance(item, dict):\n        kwattrs = item\n",
                "    elif isinstance(item, dict):\n        kwattrs = kwattrs or {}\n        kwattrs.update(item)\n")],
        demo='''
import numpy as np
from asta import Array
alias = Array[3, {"ndim": 1}]
bigger = alias[{"size": 4}]
must(isinstance(np.zeros(3), alias), "the alias accepts what it accepted")
''',
    ),
    dict(
        id="c07-missing-none", property="C07",
        needs="a required attribute whose value is None",
        what_it_breaks="a missing attribute counts as one that is None",
        edits=[("utils.py", "        attr = getattr(inst, key, NonInstanceType)\n        if attr is NonInstanceType:\n",
                "        attr = getattr(inst, key, None)\n        if attr is None and value is not None:\n")],
        demo='''
import numpy as np
from asta import Array
must(isinstance(np.zeros(3), Array[3, {"base": None}]), "present")
must(not isinstance(np.zeros(3), Array[3, {"requires_grad_": None}]), "absent")
''',
    ),
    dict(
        id="c07-last-attribute", property="C07",
        needs="two attributes, the first of which differs",
        what_it_breaks="a differing attribute is forgiven when a later one agrees",
        edits=[("utils.py", "        elif attr != value:\n            match = False\n            break\n",
                "        else:\n            match = attr == value\n")],
        demo='''
import numpy as np
from asta import Array
must(isinstance(np.zeros(3), Array[3, {"ndim": 1, "size": 3}]), "both")
must(not isinstance(np.zeros(3), Array[3, {"ndim": 2, "size": 3}]), "first differs")
must(not isinstance(np.zeros(3), Array[3, {"size": 3, "ndim": 2}]), "second differs")
''',
    ),
    dict(
        id="c08-remainder", property="C08",
        needs="a symbol that occurs in an expression but not alone, in a shape with two equations",
        what_it_breaks="equations without their constant are considered equal, so contradictory sizes are accepted",
        edits=[("utils.py", "            equations.add(x - y)\n",
                "            if not any((x - y) == 2 * eqn for eqn in equations):\n                equations.add((x - y) if y else x)\n            equations -= {eqn for eqn in equations if eqn.is_number and eqn}\n")],
        demo='''
import numpy as np
from sympy import S
from asta import Array, symbols
X = symbols.X
must(isinstance(np.zeros((3, 6)), Array[X, 2 * X]), "3, 6")
must(not isinstance(np.zeros((3, 5)), Array[X, 2 * X]), "3, 5")
must(not isinstance(np.zeros((3, 5)), Array[X, X - X + 4]), "a constant expression")
''',
    ),
    dict(
        id="c09-deferred-solve", property="C09",
        needs="arguments that only disagree jointly, and a return annotation",
        what_it_breaks="disagreeing arguments are rejected after the function has already run",
        edits=[("decorators.py",
                "        if not solvable:\n            fail_system(equations, symbols, solutions, ox)\n\n        # Call the decorated function.\n",
                "        if not solvable and \"return\" not in annotations:\n            fail_system(equations, symbols, solutions, ox)\n\n        # Call the decorated function.\n")],
        demo='''
import numpy as np
from asta import Array, symbols, typechecked
X = symbols.X
RUNS = []
@typechecked
def f(a: Array[X], b: Array[X]) -> Array[X]:
    RUNS.append(1)
    return a
must(accepts(f, np.zeros(3), np.zeros(3)), "agree")
del RUNS[:]
must(not accepts(f, np.zeros(3), np.zeros(4)), "disagree")
must(not RUNS, "the function ran")
''',
    ),
    dict(
        id="c10-default-wins", property="C10",
        needs="a keyword argument for a parameter that has a default",
        what_it_breaks="the default is checked in place of the keyword argument that was passed",
        edits=[("decorators.py",
                "    checkable_args: Dict[str, Any] = defaults.copy()\n    checkable_args.update(kwargs)\n",
                "    checkable_args: Dict[str, Any] = dict(kwargs)\n    checkable_args.update(defaults)\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Array[3], b: Array[2] = np.zeros(2)):
    return None
must(accepts(f, np.zeros(3)), "default")
must(accepts(f, np.zeros(3), b=np.ones(2)), "keyword")
must(not accepts(f, np.zeros(3), b=np.ones(5)), "wrong keyword")
''',
    ),
    dict(
        id="c10-none-default", property="C10",
        needs="a parameter whose default is None and that is not passed",
        what_it_breaks="a default of None does not count as a default, so valid calls are rejected",
        edits=[("decorators.py", "        if v.default is not inspect.Parameter.empty:\n",
                "        if v.default not in (None, inspect.Parameter.empty):\n")],
        demo='''
from typing import Optional
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Array[3], b: Optional[Array[2]] = None):
    return None
must(accepts(f, np.zeros(3), np.zeros(2)), "passed")
must(accepts(f, np.zeros(3)), "default")
''',
    ),
    dict(
        id="c10-self-named", property="C10",
        needs="a first parameter that is called cls or self and has an annotation",
        what_it_breaks="an annotated first parameter called self or cls is treated as a class reference",
        edits=[("decorators.py",
                "        checkable_args[name] = arg\n\n",
                "        checkable_args[name] = arg\n    if paramlist[:1] and paramlist[0] in refs:\n        checkable_args.pop(paramlist[0], None)\n        num_non_return_annots = len(checkable_args)\n\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
@typechecked
def f(cls: Array[3], b: Array[2]):
    return None
must(accepts(f, np.zeros(3), np.zeros(2)), "right")
must(not accepts(f, np.zeros(4), np.zeros(2)), "wrong first argument")
''',
    ),
    dict(
        id="c11-none-return", property="C11",
        needs="a function that returns None although its annotation says otherwise",
        what_it_breaks="a missing return value is not checked",
        edits=[("decorators.py", '        if "return" in annotations:\n            annotation = annotations["return"]\n',
                '        if "return" in annotations and ret is not None:\n            annotation = annotations["return"]\n')],
        demo='''
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Array[3]) -> Array[3]:
    if a[0]:
        return a
must(accepts(f, np.ones(3)), "returned")
must(not accepts(f, np.zeros(3)), "forgot to return")
''',
    ),
    dict(
        id="c11-retyped-exception", property="C11",
        needs="a function that itself raises a TypeError",
        what_it_breaks="a TypeError raised by the function is replaced by another one",
        edits=[("decorators.py", "        ret = decorated(*args, **kwargs)\n",
                "        try:\n            ret = decorated(*args, **kwargs)\n        except TypeError as err:\n            raise TypeError(f\"{decorated.__name__}: {err}\") from err\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
class Special(TypeError):
    pass
ERROR = Special("mine")
@typechecked
def f(a: Array[3]):
    raise ERROR
try:
    quiet(f, np.zeros(3))
except TypeError as err:
    must(err is ERROR, "another exception")
else:
    must(False, "no exception")
''',
    ),
    dict(
        id="c11-copied-arguments", property="C11",
        needs="a read-only or non-contiguous array, or a check of the identity of an argument",
        what_it_breaks="keyword arguments that also have a default are passed by way of the defaults",
        edits=[("decorators.py", "        ret = decorated(*args, **kwargs)\n",
                "        if kwargs:\n            for name in list(kwargs):\n                if isinstance(kwargs[name], (list, dict)):\n                    kwargs[name] = type(kwargs[name])(kwargs[name])\n        ret = decorated(*args, **kwargs)\n")],
        demo='''
from typing import List
import numpy as np
from asta import Array, typechecked
@typechecked
def f(items: List[Array[3]]) -> None:
    items.append(np.zeros(3))
mine = [np.zeros(3)]
quiet(f, items=mine)
must(len(mine) == 2, "the function got another list")
''',
    ),
    dict(
        id="c12-zero-unset", property="C12",
        needs="a dimension placeholder set to 0",
        what_it_breaks="a placeholder with the value 0 counts as one that was never set",
        edits=[("substitution.py", "                    if value is None:\n", "                    if not value:\n")],
        demo='''
import numpy as np
from asta import Array, dims, typechecked
@typechecked
def f(a: Array[dims.N]):
    return None
dims.N = 2
must(accepts(f, np.zeros(2)), "2")
dims.N = 0
must(accepts(f, np.zeros(0)), "0")
must(not accepts(f, np.zeros(2)), "2 is not 0")
''',
    ),
    dict(
        id="c12-early-zero", property="C12",
        needs="a placeholder that is already 0 when the annotation is written and changes later",
        what_it_breaks="an annotation written while the placeholder was 0 follows its later values",
        edits=[("dims.py", "        if value is None:\n            return symbol\n",
                "        if not value:\n            return symbol\n")],
        demo='''
import numpy as np
from asta import Array, dims, typechecked
dims.N = 0
@typechecked
def f(a: Array[dims.N, 3]):
    return None
dims.N = 5
must(accepts(f, np.zeros((0, 3))), "0 when it was written")
must(not accepts(f, np.zeros((5, 3))), "5 later")
''',
    ),
    dict(
        id="c12-memo", property="C12", also=["C13"],
        needs="two calls with different values of the same placeholder used in an expression of two placeholders",
        what_it_breaks="the refreshed annotation is remembered as long as the sum of all values stays the same",
        edits=[("origins.py",
                "        dimvars, _, initialized = substitute(shape, ox)\n",
                "        state = sum(val or 0 for val in asta.dims.symbol_map.values())\n"
                "        memo = annotation.__dict__.get(\"_memo\")\n"
                "        if memo is None or memo[0] != state or memo[1] is not shape:\n"
                "            memo = (state, shape, substitute(shape, ox))\n"
                "            annotation._memo = memo if memo[2][2] else None\n"
                "        dimvars, _, initialized = memo[2]\n"),
               ("origins.py", "from asta.array import Array\n", "import asta.dims\nfrom asta.array import Array\n")],
        demo='''
import numpy as np
from asta import Array, dims, typechecked
@typechecked
def f(a: Array[dims.N, dims.M]):
    return None
dims.N, dims.M = 2, 3
must(accepts(f, np.zeros((2, 3))), "2, 3")
dims.N, dims.M = 3, 2
must(accepts(f, np.zeros((3, 2))), "3, 2")
must(not accepts(f, np.zeros((2, 3))), "no longer 2, 3")
''',
    ),
    dict(
        id="c13-shared-operand", property="C13",
        needs="a concatenation that is extended twice",
        what_it_breaks="appending a tuple to a concatenation changes that concatenation",
        edits=[("placeholder.py", "            sum_contents = left_contents + [summand]\n",
                "            left_contents.append(summand)\n            sum_contents = left_contents\n")],
        demo='''
import numpy as np
from asta import Array, shapes, typechecked
base = shapes.A + shapes.B
longer = base + (7,)
@typechecked
def f(a: Array[base], b: Array[longer]):
    return None
shapes.A, shapes.B = (2,), (3,)
must(accepts(f, np.zeros((2, 3)), np.zeros((2, 3, 7))), "A + B")
must(not accepts(f, np.zeros((2, 3, 7)), np.zeros((2, 3, 7))), "A + B became longer")
''',
    ),
    dict(
        id="c13-right-operand", property="C13",
        needs="a concatenation on the right-hand side of another one",
        what_it_breaks="the contents of a composite right operand are appended before those of the left one",
        edits=[("placeholder.py", "            sum_contents = left_contents + right_contents\n",
                "            sum_contents = list(left_contents)\n            for content in right_contents:\n                if content not in sum_contents:\n                    sum_contents.append(content)\n")],
        demo='''
import numpy as np
from asta import Array, shapes, typechecked
@typechecked
def f(a: Array[shapes.A + shapes.A]):
    return None
shapes.A = (2, 3)
must(accepts(f, np.zeros((2, 3, 2, 3))), "A + A")
must(not accepts(f, np.zeros((2, 3))), "A is not A + A")
''',
    ),
    dict(
        id="c14-dict-any-keys", property="C14",
        needs="a dictionary annotation whose key type is Any",
        what_it_breaks="the values of a Dict[Any, ...] are not checked",
        edits=[("origins.py", "            if key_type is not Any or value_type is not Any:\n",
                "            if key_type is not Any and value_type is not Any:\n")],
        demo='''
from typing import Any, Dict
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Dict[Any, Array[3]]):
    return None
must(accepts(f, {"x": np.zeros(3)}), "right")
must(not accepts(f, {"x": np.zeros(4)}), "wrong")
''',
    ),
    dict(
        id="c14-short-tuple", property="C14",
        needs="a tuple that is shorter than its annotation",
        what_it_breaks="tuples with too few elements are accepted",
        edits=[("origins.py", "            if len(value) != len(tuple_params):\n",
                "            if len(value) > len(tuple_params):\n")],
        demo='''
from typing import Tuple
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Tuple[Array[3], Array[2]]):
    return None
must(accepts(f, (np.zeros(3), np.zeros(2))), "both")
must(not accepts(f, (np.zeros(3),)), "one is missing")
''',
    ),
    dict(
        id="c14-typed-dict-none", property="C14",
        needs="a typed dictionary with the value None for a required key",
        what_it_breaks="None is accepted for every key of a typed dictionary",
        edits=[("origins.py", "        if argvalue is not MISSING_VALUE:\n",
                "        if argvalue is not MISSING_VALUE and argvalue is not None:\n")],
        demo='''
from typing import TypedDict
import numpy as np
from asta import Array, typechecked
class D(TypedDict):
    x: Array[3]
@typechecked
def f(a: D):
    return None
must(accepts(f, {"x": np.zeros(3)}), "right")
must(not accepts(f, {"x": None}), "None")
must(not accepts(f, {"x": np.zeros(4)}), "wrong")
''',
    ),
    dict(
        id="c14-sequence-strings", property="C14",
        needs="a sequence of arrays with the option that checks only the first element",
        what_it_breaks="with check-all-sequence-elements=no the last element is checked, not the first",
        edits=[("origins.py",
                "            value_iterable = value\n            if not ox.check_all_sequence_elements:\n                value_iterable = itertools",
                "            value_iterable = value if ox.check_all_sequence_elements else value[-1:]\n            if not ox.check_all_sequence_elements:\n                value_iterable = itertools")],
        demo='''
from typing import Sequence
import numpy as np
from asta import Array, typechecked
from asta.config import get_ox
get_ox().check_all_sequence_elements = False
@typechecked
def f(a: Sequence[Array[3]]):
    return None
must(accepts(f, (np.zeros(3), np.zeros(4))), "only the first counts")
must(not accepts(f, (np.zeros(4), np.zeros(3))), "the first counts")
''',
    ),
    dict(
        id="c15-shortcut", property="C15",
        needs="a union of several array types of one library",
        what_it_breaks="of the members with the same name, which is how the message lists them, only the last is tried",
        edits=[("origins.py", "        union_params = annotation.__args__\n",
                "        union_params = tuple({get_type_name(t): t for t in annotation.__args__}.values())\n")],
        demo='''
from typing import Union
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Array[...]) -> Union[Array[int], Array[float]]:
    return a
must(accepts(f, np.zeros(3, dtype=int)), "int")
must(accepts(f, np.zeros(3)), "float")
''',
    ),
    dict(
        id="c16-truthy-variable", property="C16",
        needs='ASTA_TYPECHECK set to something other than "0" and "1"',
        what_it_breaks='values such as "" or "true" switch checking on',
        edits=[("decorators.py", "    if \"ASTA_TYPECHECK\" in os.environ:\n        enabled = ox.on and os.environ[\"ASTA_TYPECHECK\"] == \"1\"\n", "    variable = os.environ.get(\"ASTA_TYPECHECK\")\n    if variable is not None:\n        enabled = ox.on and variable != \"0\"\n")],
        demo='''
import os
from asta import Array, typechecked
def f(a: Array[3]):
    return None
for value in ["", "0", "2", "true", "yes", " 1"]:
    os.environ["ASTA_TYPECHECK"] = value
    must(typechecked(f) is f, repr(value))
os.environ["ASTA_TYPECHECK"] = "1"
must(typechecked(f) is not f, "on")
''',
    ),
    dict(
        id="c16-sticky-off", property="C16",
        needs="a function decorated while checking is off, followed by one decorated while it is on",
        what_it_breaks="checking stays off once it was switched off by the variable",
        edits=[("decorators.py", "    if not enabled:\n        return decorated\n",
                "    if not enabled:\n        ox.on = os.environ.get(\"ASTA_TYPECHECK\") == \"0\" and ox.on\n        return decorated\n")],
        demo='''
import os
from asta import Array, typechecked
def f(a: Array[3]):
    return None
os.environ["ASTA_TYPECHECK"] = "0"
must(typechecked(f) is f, "off")
os.environ["ASTA_TYPECHECK"] = "off"
must(typechecked(f) is f, "off")
del os.environ["ASTA_TYPECHECK"]
must(typechecked(f) is not f, "on again")
''',
    ),
    dict(
        id="c17-repeated-message", property="C17",
        needs="raise-errors=no and the same failure twice in a row",
        what_it_breaks="a failure with the same text as the last one is not printed",
        edits=[("display.py", "        raise TypeError(err)\n    print(err)\n",
                "        raise TypeError(err)\n    if getattr(ox, \"last_error\", None) != err:\n        print(err)\n    ox.last_error = err\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
from asta.config import get_ox
get_ox().raise_errors = False
@typechecked
def f(a: Array[3]):
    return 5
for i in range(3):
    result, text = quiet(f, np.zeros(4))
    must(result == 5, "result")
    must("FAILED" in text, "call %d" % i)
''',
    ),
    dict(
        id="c17-return-lost", property="C17",
        needs="raise-errors=no and arguments that disagree",
        what_it_breaks="a call whose arguments disagree returns None instead of the result of the function",
        edits=[("decorators.py",
                "        if not solvable:\n            fail_system(equations, symbols, solutions, ox)\n\n        return ret\n",
                "        if not solvable:\n            ret = fail_system(equations, symbols, solutions, ox)\n\n        return ret\n")],
        demo='''
import numpy as np
from asta import Array, symbols, typechecked
from asta.config import get_ox
get_ox().raise_errors = False
X = symbols.X
@typechecked
def f(a: Array[X], b: Array[X]):
    return 5
must(quiet(f, np.zeros(4), np.zeros(4))[0] == 5, "agree")
must(quiet(f, np.zeros(3), np.zeros(4))[0] == 5, "disagree")
''',
    ),
    dict(
        id="c18-home-order", property="C18",
        needs="both ~/.astarc and ~/.config/astarc",
        what_it_breaks="the files in the home directory are read in the wrong order",
        edits=[("config.py",
                '            home_rc = os.path.join(user_home, ".astarc")\n            if os.path.isfile(home_rc):\n                yield home_rc\n            home_rc = os.path.join(user_home, ".config", "astarc")\n            if os.path.isfile(home_rc):\n                yield home_rc\n',
                '            for home_rc in (".config/astarc", ".astarc"):\n                home_rc = os.path.join(user_home, home_rc)\n                if os.path.isfile(home_rc):\n                    yield home_rc\n')],
        demo='''
import os
os.makedirs(os.path.join(os.environ["HOME"], ".config"))
with open(os.path.join(os.environ["HOME"], ".astarc"), "w") as f:
    f.write("[MASTER]\\nprint-passes=no\\n")
with open(os.path.join(os.environ["HOME"], ".config", "astarc"), "w") as f:
    f.write("[MASTER]\\nprint-passes=yes\\n")
os.mkdir("work")
os.chdir("work")
from asta.config import get_ox
must(get_ox().print_passes is False, "~/.astarc comes first")
''',
    ),
    dict(
        id="c18-other-sections", property="C18",
        needs="a setup.cfg with a section whose name contains asta",
        what_it_breaks="a setup.cfg without a section for asta hides the files after it",
        edits=[("config.py", 'return any(section.startswith("asta.") for section in parser.sections())',
                'return any("asta" in section for section in parser.sections())')],
        demo='''
import os
with open("setup.cfg", "w") as f:
    f.write("[isort]\\nx=1\\n[tool:fasta]\\ny=2\\n")
with open("rc", "w") as f:
    f.write("[MASTER]\\nprint-passes=no\\n")
os.environ["ASTARC"] = os.path.abspath("rc")
from asta.config import get_ox
must(get_ox().print_passes is False, "setup.cfg does not mention asta")
''',
    ),
    dict(
        id="c18-parent-stops", property="C18",
        needs="nested packages with a file two levels up",
        what_it_breaks="only the nearest parent directory of a package is searched",
        edits=[("config.py", '        while os.path.isfile(os.path.join(curdir, "__init__.py")):\n            curdir = os.path.abspath(os.path.join(curdir, ".."))\n',
                '        while os.path.isfile(os.path.join(curdir, "__init__.py")):\n            curdir = os.path.dirname(curdir)\n            if not os.path.isfile(os.path.join(curdir, "__init__.py")):\n                break\n')],
        demo='''
import os
os.makedirs("top/a/b")
for folder in ("top/a", "top/a/b"):
    open(os.path.join(folder, "__init__.py"), "w").close()
with open("top/astarc", "w") as f:
    f.write("[MASTER]\\nprint-passes=no\\n")
os.chdir("top/a/b")
from asta.config import get_ox
must(get_ox().print_passes is False, "the directory that holds the outermost package")
''',
    ),
    dict(
        id="c19-positional-only", property="C19",
        needs="check-non-asta-types=yes and a callable with positional-only parameters",
        what_it_breaks="positional-only parameters of a callable are not counted",
        edits=[("origins.py", "            has_varargs = any(\n                param\n", "            positional_args = [\n                param for param in positional_args if param.kind.value == 1\n            ]\n            has_varargs = any(\n                param\n")],
        demo='''
from typing import Callable
from asta import typechecked
from asta.config import get_ox
get_ox().check_non_asta_types = True
@typechecked
def f(g: Callable[[int, int], int]):
    return None
must(accepts(f, lambda x, y: x), "two")
must(accepts(f, lambda x, y, /: x), "two positional-only")
must(not accepts(f, lambda x, y, z, /: x), "three positional-only")
''',
    ),
    dict(
        id="c19-bytearray", property="C19",
        needs="check-non-asta-types=yes and a bytearray",
        what_it_breaks="a bytearray is not accepted where bytes are annotated",
        edits=[("origins.py", "                if annotation is bytes:\n                    annotation = (bytearray, bytes)\n",
                "                if annotation is bytes and not isinstance(value, bytes):\n                    annotation = (memoryview, bytes)\n")],
        demo='''
from asta import typechecked
from asta.config import get_ox
get_ox().check_non_asta_types = True
@typechecked
def f(g: bytes):
    return None
must(accepts(f, b"x"), "bytes")
must(accepts(f, bytearray(b"x")), "bytearray")
must(not accepts(f, memoryview(b"x")), "memoryview")
must(not accepts(f, "x"), "str")
''',
    ),
    dict(
        id="c19-subclass-any", property="C19",
        needs="check-non-asta-types=yes and a class that is no subclass of the annotated one",
        what_it_breaks="Type[C] also accepts the base classes of C",
        edits=[("origins.py", "    if expected_class and not issubclass(value, expected_class):\n",
                "    related = expected_class and value in expected_class.__mro__[:-1]\n    if expected_class and not (related or issubclass(value, expected_class)):\n")],
        demo='''
from typing import Type
from asta import typechecked
from asta.config import get_ox
get_ox().check_non_asta_types = True
class A: pass
class B(A): pass
class C(B): pass
@typechecked
def f(g: Type[B]):
    return None
must(accepts(f, B), "itself")
must(accepts(f, C), "subclass")
must(not accepts(f, A), "base class")
must(not accepts(f, int), "other class")
''',
    ),
    dict(
        id="c20-empty-arrays", property="C20",
        needs="an array whose dimensions are all zero",
        what_it_breaks="arrays without elements are scalars",
        edits=[("constants.py", "                if inst.shape == tuple():  # type: ignore[attr-defined]\n",
                "                if not any(inst.shape):  # type: ignore[attr-defined]\n")],
        demo='''
import numpy as np
from asta import Scalar
must(isinstance(np.array(3), Scalar), "zero-dimensional")
must(not isinstance(np.zeros((0,)), Scalar), "(0,)")
must(not isinstance(np.zeros((0, 0)), Scalar), "(0, 0)")
''',
    ),
    dict(
        id="c20-exact-types", property="C20",
        needs="an instance of a subclass of a scalar type",
        what_it_breaks="subclasses of the scalar types are no scalars",
        edits=[("constants.py", "            if isinstance(inst, generic_type):\n                return True\n",
                "            if type(inst) is generic_type:\n                return True\n")],
        demo='''
import enum
from asta import Scalar
class Color(enum.IntEnum):
    RED = 1
must(isinstance(1, Scalar), "int")
must(isinstance(Color.RED, Scalar), "subclass of int")
''',
    ),
    dict(
        id="c21-borrowed-methods", property="C21",
        needs="a class attribute that holds a function of a class whose name starts with this class's name",
        what_it_breaks="functions of other classes are decorated in place",
        edits=[("decorators.py", '        prefix = decorated.__qualname__ + "."\n',
                "        prefix = decorated.__qualname__\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
class Layers:
    def run(self, a: Array[3]):
        return None
RUN = Layers.run
@typechecked
class Layer:
    run = RUN
    def other(self, a: Array[3]):
        return None
must(not accepts(Layer().other, np.zeros(4)), "own method")
must(Layer.__dict__["run"] is RUN, "a function from elsewhere")
must(accepts(Layer().run, np.zeros(4)), "a function from elsewhere is not checked")
''',
    ),
    dict(
        id="c21-missing-libraries-method", property="C21",
        needs="a class with a class method and a method that calls it",
        what_it_breaks="annotated methods whose name starts with an underscore are left out",
        edits=[("decorators.py", "        for key, attr in decorated.__dict__.items():\n",
                "        for key, attr in decorated.__dict__.items():\n            if key.startswith(\"__\") and key != \"__init__\":\n                continue\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
@typechecked
class C:
    def __init__(self, a: Array[3]):
        pass
    def __call__(self, a: Array[3]):
        return None
must(not accepts(C, np.zeros(4)), "__init__")
c = quiet(C, np.zeros(3))[0]
must(accepts(c, np.zeros(3)), "__call__")
must(not accepts(c, np.zeros(4)), "__call__ is a method too")
''',
    ),
    dict(
        id="c22-silent-comparison", property="C22",
        needs="a missing library whose class is compared with something that is no class",
        what_it_breaks="comparing the stand-in for a missing library with an ordinary value gives False",
        edits=[("unusable.py", '        """ Should always raise an ImportError. """\n        cls._import()\n        return super().__eq__(other)\n',
                '        """ Should always raise an ImportError. """\n        if not isinstance(other, type):\n            return False\n        cls._import()\n        return super().__eq__(other)\n')],
        demo='''
import sys
sys.modules["torch"] = None
from asta import Array, Tensor
def raises(function):
    try:
        function()
    except ImportError:
        return True
    return False
must(raises(lambda: Tensor == int), "a class")
must(raises(lambda: Tensor == 3), "a number")
must(raises(lambda: Tensor[3]), "subscript")
''',
    ),
    dict(
        id="c22-silent-repr", property="C22",
        needs="a missing library whose class is printed",
        what_it_breaks="printing the stand-in for a missing library works",
        edits=[("unusable.py", '        cls._import()\n        return super().__repr__()\n',
                '        return type.__repr__(cls)\n')],
        demo='''
import sys
sys.modules["torch"] = None
from asta import Tensor
try:
    repr(Tensor)
except ImportError:
    pass
else:
    must(False, "printed")
''',
    ),
    dict(
        id="c01-identity", property="C01",
        needs="a size above 256, which CPython does not keep one object for",
        what_it_breaks="literal sizes are compared by identity: Array[300] rejects arrays of shape (300,)",
        edits=[("utils.py", "        if x != y:\n            return False, equations\n    return True", "        if x is not y:\n            return False, equations\n    return True")],
        demo='''
import numpy as np
from asta import Array
for n in (3, int("300")):
    must(isinstance(np.zeros((n, 2)), Array[int(str(n)), 2]), n)
    must(not isinstance(np.zeros((n, 2)), Array[int(str(n)), 3]), n)
''',
    ),
    dict(
        id="c01-seventh-dimension", property="C01",
        needs="a pattern with more than six sizes in a row",
        what_it_breaks="only the first six sizes of a run are compared",
        edits=[("utils.py", "    for x, y in zip(shape_1, shape_2):\n", "    for x, y in zip(shape_1[:6], shape_2):\n")],
        demo='''
import numpy as np
from asta import Array
must(isinstance(np.zeros((1,) * 7 + (2,)), Array[(1,) * 7 + (2,)]), "equal")
must(not isinstance(np.zeros((1,) * 7 + (2,)), Array[(1,) * 7 + (3,)]), "the last size differs")
''',
    ),
    dict(
        id="c02-unknown-dimensions", property="C02",
        needs="a TensorShape with a size of zero in the subscript",
        what_it_breaks="sizes of zero in a TensorShape are taken for unknown ones and become wildcards",
        edits=[("_tftensor.py", "        if isinstance(item, tf.TensorShape):\n            item = tuple(item)\n\n",
                "        if isinstance(item, tf.TensorShape):\n            item = tuple(dim or -1 for dim in item)\n\n")],
        demo='''
import tensorflow as tf
from asta import TFTensor
must(isinstance(tf.zeros((0, 2)), TFTensor[tf.TensorShape([0, 2])]), "zero")
must(not isinstance(tf.zeros((3, 2)), TFTensor[tf.TensorShape([0, 2])]), "three")
''',
    ),
    dict(
        id="c02-known-ranks", property="C02",
        needs="a TensorFlow tensor with more than six dimensions",
        what_it_breaks="the instance shape is cut to the first six dimensions",
        edits=[("_tftensor.py", "                    inst_shape = tuple(inst_shape)\n", "                    inst_shape = tuple(inst_shape[i] for i in range(min(inst_shape.rank, 6)))\n")],
        demo='''
import tensorflow as tf
from asta import TFTensor
must(isinstance(tf.zeros((1,) * 7), TFTensor[(1,) * 7]), "seven")
must(not isinstance(tf.zeros((1,) * 7), TFTensor[(1,) * 6]), "seven are not six")
''',
    ),
    dict(
        id="c03-string-width", property="C03",
        needs="an array of strings against an explicit dtype of strings of another length",
        what_it_breaks="explicit string dtypes match strings of every length",
        edits=[("_array.py", "            dtype = item\n", "            dtype = item\n            kind = item.kind if item.kind in \"SU\" else \"\"\n")],
        demo='''
import numpy as np
from asta import Array
must(isinstance(np.zeros(3, "<U4"), Array[np.dtype("<U4")]), "same length")
must(not isinstance(np.zeros(3, "<U5"), Array[np.dtype("<U4")]), "other length")
must(isinstance(np.zeros(3, "<U5"), Array[str]), "any length")
''',
    ),
    dict(
        id="c04-equal-dimensions", property="C04",
        needs="an invalid dimension that is equal to a valid one",
        what_it_breaks="every dimension is verified once, so True after 1 and 2.0 after 2 are accepted",
        edits=[("parser.py", "    for dim in item:\n", "    for dim in dict.fromkeys(item):\n")],
        demo='''
from asta import Array
def invalid(item):
    try:
        Array[item]
    except TypeError:
        return True
    return False
must(invalid((2.0, 2)) and invalid((2, "a")), "invalid")
must(invalid((2, 2.0)), "2.0")
must(invalid((1, 3, True)), "True")
must(not invalid((1, 1)), "valid")
''',
    ),
    dict(
        id="c04-last-pair", property="C04",
        needs="two adjacent ellipses behind at least five other elements",
        what_it_breaks="adjacent ellipses far behind in a long shape are not noticed",
        edits=[("utils.py", "    for i in range(len(tup) - len(sub) + 1):\n", "    for i in range(min(len(tup) - len(sub) + 1, 5)):\n")],
        demo='''
from asta import Array
def invalid(item):
    try:
        Array[item]
    except TypeError:
        return True
    return False
must(invalid((..., ...)) and invalid((..., ..., 3)), "the start")
must(invalid((3, ..., ...)), "the end")
must(invalid((1, 2, 3, 4, 5, ..., ...)), "a longer shape")
must(not invalid((3, ...)), "valid")
''',
    ),
    dict(
        id="c05-printed-attributes", property="C05",
        needs="types with the same attributes written in another order",
        what_it_breaks="attributes are compared by their text, so their order counts",
        edits=[("_array.py", "        if cls.shape != other.shape or cls.dtype != other.dtype:\n            return False\n", "        if cls.shape != other.shape or cls.dtype != other.dtype:\n            return False\n        if repr(cls.kwattrs) != repr(other.kwattrs):\n            return False\n")],
        demo='''
from asta import Array
must(Array[3, {"a": 1, "b": 2}] == Array[3, {"a": 1, "b": 2}], "same")
must(Array[3, {"a": 1, "b": 2}] == Array[3, {"b": 2, "a": 1}], "order")
must(Array[3, {"a": 1}] != Array[3, {"a": 2}], "different")
''',
    ),
    dict(
        id="c06-shared-subscripts", property="C06",
        needs="an alias with a dtype that is subscripted with a size above 9 after another alias was",
        what_it_breaks="the type made for a size is kept and given out whenever an alias is subscripted with that size",
        edits=[("classes.py", "        bases = cls, *cls.__bases__\n        result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore\n",
                "        bases = cls, *cls.__bases__\n        made = SubscriptableMeta.__dict__.get(\"made\", {})\n        key = (cls.__name__, item) if type(item) is int and item > 9 else None\n        if key and key in made:\n            return made[key]\n        result: GenericMeta = type(cls.__name__, bases, body)  # type: ignore\n        made.update({key: result} if key else {})\n        SubscriptableMeta.made = made\n")],
        demo='''
import numpy as np
from asta import Array
A = Array[np.float32]
B = Array[30]
must(A[30] == Array[np.float32, 30], "the dtype is kept")
must(A[30] != B, "other dtypes")
must(not isinstance(np.zeros(30), A[30]), "float64")
''',
    ),
    dict(
        id="c06-forgotten-scalar", property="C06",
        needs="an alias of shape () that gets a dtype",
        what_it_breaks="the empty shape of an alias is lost when it is subscripted with a dtype",
        edits=[("parser.py", "    shape: Optional[Tuple] = cls.shape\n", "    shape: Optional[Tuple] = cls.shape or None\n")],
        demo='''
import numpy as np
from asta import Array
A = Array[()]
must(isinstance(np.zeros(()), A[float]), "a scalar")
must(not isinstance(np.zeros(3), A[float]), "the alias has shape ()")
''',
    ),
    dict(
        id="c07-text-attributes", property="C07",
        needs="an attribute whose text is that of the required value",
        what_it_breaks="attributes are compared by their text",
        edits=[("utils.py", "        elif attr != value:\n", "        elif str(attr) != str(value):\n")],
        demo='''
import numpy as np
from asta import Array
class A(np.ndarray):
    pass
a = np.zeros(3).view(A)
a.tag = 3
must(isinstance(a, Array[3, {"tag": 3}]), "3")
must(not isinstance(a, Array[3, {"tag": "3"}]), "the text 3")
must(isinstance(a, Array[3, {"tag": 3.0}]), "3.0")
''',
    ),
    dict(
        id="c08-few-symbols", property="C08",
        needs="a shape with more than four equations of which a late one contradicts the others",
        what_it_breaks="only four of the equations are solved",
        edits=[("utils.py", "    solutions: List[Dict[Symbol, int]] = solvers.solve(equations, symbols, dict=True)\n",
                "    system = sorted(equations, key=str)[:4]\n    solutions: List[Dict[Symbol, int]] = solvers.solve(system, symbols, dict=True)\n")],
        demo='''
import numpy as np
from asta import Array, symbols
A, B, C, D = symbols.A, symbols.B, symbols.C, symbols.D
must(isinstance(np.zeros((1, 2, 3, 4, 4)), Array[A, B, C, D, D]), "solvable")
must(not isinstance(np.zeros((1, 2, 3, 4, 5)), Array[A, B, C, D, D]), "two values for D")
''',
    ),
    dict(
        id="c08-solver-cache", property="C08",
        needs="two checks of systems with the same number of equations and symbols one after the other",
        what_it_breaks="results of the solver are kept for the symbols of the system, not for the system",
        edits=[("utils.py", "    solutions: List[Dict[Symbol, int]] = solvers.solve(equations, symbols, dict=True)\n",
                "    known = astasolver.__dict__.setdefault(\"known\", {})\n    key = (len(equations), frozenset(symbols))\n    if len(symbols) < 3 or key not in known:\n        known[key] = solvers.solve(equations, symbols, dict=True)\n    solutions: List[Dict[Symbol, int]] = known[key]\n")],
        demo='''
import numpy as np
from asta import Array, symbols
A, B, C = symbols.A, symbols.B, symbols.C
T = Array[A, B, C, A + B + C]
must(isinstance(np.zeros((1, 2, 3, 6)), T), "solvable")
must(not isinstance(np.zeros((1, 2, 3, 7)), T), "not solvable")
must(isinstance(np.zeros((1, 2, 4, 7)), T), "solvable")
''',
    ),
    dict(
        id="c09-return-alone", property="C09",
        needs="a return value that matches its annotation but not the symbols of the arguments",
        what_it_breaks="the symbols of the return value are solved on their own when the function has several parameters",
        edits=[("decorators.py", "            equations = check_annotation(\"return\", ret, annotation, equations, ox)\n",
                "            if len(checkable_args) > 2:\n                equations = set()\n            equations = check_annotation(\"return\", ret, annotation, equations, ox)\n")],
        demo='''
import numpy as np
from asta import Array, typechecked, symbols
X, Y, Z = symbols.X, symbols.Y, symbols.Z
@typechecked
def f(a: Array[X], b: Array[Y], c: Array[Z]) -> Array[X, Y]:
    return np.zeros((3, int(c[0])))
three = np.full(3, 3.0)
must(accepts(f, three, three, three), "agree")
must(not accepts(f, three, three, three + 1), "disagree")
''',
    ),
    dict(
        id="c10-same-object", property="C10",
        needs="one array that is passed for two parameters with different annotations",
        what_it_breaks="an object that was already checked for one parameter is not checked for another",
        edits=[("decorators.py", "        for name, arg in checkable_args.items():\n            annotation = annotations[name]\n",
                "        seen: Set[int] = set()\n        for name, arg in checkable_args.items():\n            if id(arg) in seen:\n                continue\n            seen.add(id(arg))\n            annotation = annotations[name]\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Array[3], b: Array[4]):
    return None
a = np.zeros(3)
must(accepts(f, a, np.zeros(4)), "fine")
must(not accepts(f, a, np.zeros(3)), "b")
must(not accepts(f, a, a), "b is a")
''',
    ),
    dict(
        id="c11-returned-argument", property="C11",
        needs="a function that returns one of its arguments, which was given by keyword",
        what_it_breaks="a result that is one of the arguments is not checked again",
        edits=[("decorators.py", "        if \"return\" in annotations:\n            annotation = annotations[\"return\"]\n",
                "        if \"return\" in annotations and not any(ret is arg for arg in kwargs.values()):\n            annotation = annotations[\"return\"]\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Array[...], b: Array[...]) -> Array[3]:
    return a
must(accepts(f, np.zeros(3), np.zeros(3)), "fine")
must(not accepts(f, a=np.zeros(4), b=np.zeros(3)), "the result has shape (4,)")
''',
    ),
    dict(
        id="c13-equal-elements", property="C13",
        needs="a shape with a number that is equal to an earlier integer",
        what_it_breaks="elements of a shape are checked once per value, so (1, 1.0) is accepted",
        edits=[("shapes.py", "            for element in value:\n", "            for element in dict.fromkeys(value):\n")],
        demo='''
from asta import shapes
def refused(value):
    try:
        shapes.S = value
    except TypeError:
        return True
    return False
must(refused((1.0, 2)) and refused((1, "a")), "refused")
must(refused((1, 1.0)), "1.0")
must(not refused((1, 1)), "integers")
''',
    ),
    dict(
        id="c13-one-of-each", property="C13",
        needs="a shape placeholder that is used twice in one annotation",
        what_it_breaks="a shape that occurs twice in an annotation is expanded only once",
        edits=[("substitution.py", "                if placeholder.unpacked:\n", "                if any(placeholder is other for other in shape[:i]):\n                    continue\n                if placeholder.unpacked:\n")],
        demo='''
import numpy as np
from asta import Array, typechecked, shapes
S = shapes.S
@typechecked
def f(a: Array[S + S]):
    return None
@typechecked
def g(a: Array[S + (1,)]):
    return None
shapes.S = (2, 3)
must(accepts(g, np.zeros((2, 3, 1))), "once")
must(accepts(f, np.zeros((2, 3, 2, 3))), "twice")
must(not accepts(f, np.zeros((2, 3))), "not once")
''',
    ),
    dict(
        id="c14-one-per-type", property="C14",
        needs="a list of nine or more arrays of which a late one is wrong",
        what_it_breaks="only the first eight elements of a list are checked, if the others have the same type as the first",
        edits=[("origins.py", "                for i, v in enumerate(value_iterable):\n                    element_equations = check_annotation(\n                        f\"{name}[{i}]\", v, value_type, equations, ox\n                    )\n                    equations",
                "                for i, v in enumerate(value_iterable):\n                    if i > 7 and type(v) is type(value[0]):\n                        continue\n                    element_equations = check_annotation(\n                        f\"{name}[{i}]\", v, value_type, equations, ox\n                    )\n                    equations")],
        demo='''
from typing import List
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: List[Array[3]]):
    return None
a, b = np.zeros(3), np.zeros(4)
must(accepts(f, [a, a, a]), "fine")
must(not accepts(f, [a, b]) and not accepts(f, [b, a, a]), "second, first")
must(not accepts(f, [a, a, b]), "third")
must(not accepts(f, [a] * 8 + [b]), "ninth")
''',
    ),
    dict(
        id="c15-leaky-member", property="C15",
        needs="a union whose first member fails after it has bound a symbol",
        what_it_breaks="equations are added in place, so the ones of a failed member stay",
        edits=[("origins.py", "        equations = equations.union(shape_equations, attr_equations)\n\n    return equations\n", "        equations.update(shape_equations, attr_equations)\n\n    return equations\n")],
        demo='''
from typing import Tuple, Union
import numpy as np
from asta import Array, typechecked, symbols
X = symbols.X
@typechecked
def f(a: Union[Tuple[Array[X], Array[X, 2]], Tuple[Array[-1], Array[X, 3]]]):
    return None
must(accepts(f, (np.zeros(3), np.zeros((3, 2)))), "first")
must(accepts(f, (np.zeros(3), np.zeros((4, 3)))), "second")
''',
    ),
    dict(
        id="c15-five-members", property="C15",
        needs="a union with more than five members",
        what_it_breaks="only the first five members of a union are tried",
        edits=[("origins.py", "        union_params = annotation.__args__\n", "        union_params = annotation.__args__[:5]\n")],
        demo='''
from typing import Union
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Union[Array[1], Array[2], Array[3], Array[4], Array[5], Array[6]]):
    return None
must(accepts(f, np.zeros(5)), "five")
must(accepts(f, np.zeros(6)), "six")
''',
    ),
    dict(
        id="c17-once-per-process", property="C17",
        needs="raise-errors=no and two calls that use the same unset dimension",
        what_it_breaks="an unset dimension is reported only once",
        edits=[("substitution.py", "    uninitialized_names: Set[str] = set()\n    initialized = True\n", "    uninitialized_names: Set[str] = substitute.__dict__.setdefault(\"names\", set())\n    initialized = True\n")],
        demo='''
import numpy as np
from asta import Array, typechecked, dims
from asta.config import get_ox
get_ox().raise_errors = False
@typechecked
def f(a: Array[dims.K]):
    return None
must("FAILED" in quiet(f, np.zeros(3))[1], "first")
must("FAILED" in quiet(f, np.zeros(3))[1], "second")
''',
    ),
    dict(
        id="c19-numeric-tower", property="C19",
        needs="an int for a parameter annotated as float",
        what_it_breaks="ints are accepted where a float or complex number is annotated",
        edits=[("origins.py", "    elif annotation is float and not isinstance(value, float):\n", "    elif annotation is float and not isinstance(value, (float, bool)):\n")],
        demo='''
from asta import typechecked
from asta.config import get_ox
get_ox().check_non_asta_types = True
@typechecked
def f(a: float):
    return None
must(accepts(f, 2.5), "a float")
must(not accepts(f, 2), "an int")
must(not accepts(f, True), "a bool")
''',
    ),
    dict(
        id="c20-single-elements", property="C20",
        needs="a tensor of TensorFlow with one element and several dimensions",
        what_it_breaks="arrays with one element and at least three dimensions are scalars",
        edits=[("constants.py", "                if inst.shape == tuple():  # type: ignore[attr-defined]\n",
                "                if inst.shape == tuple() or tuple(inst.shape) == (1,) * max(3, len(inst.shape)):  # type: ignore[attr-defined]\n")],
        demo='''
import numpy as np
from asta import Scalar
must(isinstance(np.zeros(()), Scalar), "()")
must(not isinstance(np.zeros((1,)), Scalar), "(1,)")
must(not isinstance(np.zeros((1, 1, 1)), Scalar), "(1, 1, 1)")
''',
    ),
    dict(
        id="c21-descriptor-classes", property="C21",
        needs="a method wrapped in a subclass of staticmethod or classmethod",
        what_it_breaks="methods in subclasses of staticmethod and classmethod become instance methods",
        edits=[("decorators.py", "                    setattr(decorated, key, type(attr)(wrapped))\n",
                "                    kinds = {classmethod: classmethod, staticmethod: staticmethod}\n                    setattr(decorated, key, kinds.get(type(attr), lambda f: f)(wrapped))\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
class helper(staticmethod):
    pass
@typechecked
class C:
    @helper
    def f(a: Array[3]):
        return None
    @staticmethod
    def g(a: Array[3]):
        return None
must(accepts(C().g, np.zeros(3)) and not accepts(C().g, np.zeros(4)), "static")
must(accepts(C().f, np.zeros(3)) and not accepts(C().f, np.zeros(4)), "helper")
''',
    ),
    dict(
        id="c21-second-decoration", property="C21",
        needs="two classes that share a method object under the same qualified name prefix, or a class decorated in a loop",
        what_it_breaks="only the first eight attributes with annotations are decorated",
        edits=[("decorators.py", "        for key, attr in decorated.__dict__.items():\n", "        for key, attr in list(decorated.__dict__.items())[:12]:\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
body = "".join("    def m%d(self, a: Array[3]):\\n        return None\\n" % k for k in range(16))
exec("@typechecked\\nclass C:\\n" + body)
c = C()
for k in range(16):
    must(accepts(getattr(c, "m%d" % k), np.zeros(3)), k)
    must(not accepts(getattr(c, "m%d" % k), np.zeros(4)), k)
''',
    ),
    dict(
        id="c22-once", property="C22",
        needs="a missing library whose class is used twice",
        what_it_breaks="the import is tried only once, so the second use of a missing class is silent",
        edits=[("unusable.py", "        import torch\n", "        if not cls.__dict__.get(\"tried\"):\n            cls.tried = True\n            import torch\n"),
               ],
        demo='''
import sys
sys.modules["torch"] = None
from asta import Tensor
for _ in range(3):
    try:
        repr(Tensor)
    except ImportError:
        continue
    must(False, "printed")
''',
    ),
    dict(
        id="c23-written-annotation", property="C23",
        needs="a placeholder in the annotation of a value that does not match",
        what_it_breaks="the message shows the annotation as it was written, not the sizes it stands for",
        edits=[("origins.py", "    annotation, initialized = refresh(annotation, ox)\n", "    written = annotation\n    annotation, initialized = refresh(annotation, ox)\n"),
               ("origins.py", "        fail_argument(name, annotation, rep, ox)\n", "        fail_argument(name, written, rep, ox)\n")],
        demo='''
import numpy as np
from asta import Array, typechecked, dims
@typechecked
def f(a: Array[dims.K, 2]):
    return None
dims.K = 7
try:
    quiet(f, np.zeros(3))
except TypeError as err:
    must("(7, 2)" in str(err), "the size")
else:
    must(False, "no error")
''',
    ),
    dict(
        id="c23-variadic-name", property="C23",
        needs="a wrong element of a tuple of any length inside another container",
        what_it_breaks="elements of tuples of any length are named by the position of the tuple",
        edits=[("origins.py", "            for i, elem in enumerate(value):\n                equations = check_annotation(\n                    f\"{name}[{i}]\", elem, elem_type, equations, ox\n",
                "            for i, elem in enumerate(value):\n                equations = check_annotation(\n                    f\"{name}[{value.index(elem) if elem is value[0] else i % 2}]\", elem, elem_type, equations, ox\n")],
        demo='''
from typing import Tuple
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Tuple[Array[3], ...]):
    return None
a, b = np.zeros(3), np.zeros(4)
for k in range(4):
    values = [a] * 4
    values[k] = b
    try:
        quiet(f, tuple(values))
    except TypeError as err:
        must("'a[%d]'" % k in str(err), k)
    else:
        must(False, "no error")
''',
    ),
    dict(
        id="c03-numpy-equivalents", property="C03",
        needs="TensorFlow tensors of string or variant type",
        what_it_breaks="TensorFlow dtypes are compared by their NumPy equivalents, and string, variant and resource tensors share one",
        edits=[("_tftensor.py", "if cls.dtype and cls.dtype != inst.dtype:", "if cls.dtype and cls.dtype.as_numpy_dtype != inst.dtype.as_numpy_dtype:")],
        demo='''
import tensorflow as tf
from asta import TFTensor
must(isinstance(tf.constant("a"), TFTensor[tf.string]) and not isinstance(tf.constant("a"), TFTensor[tf.int32]), "string")
must(not isinstance(tf.constant("a"), TFTensor[tf.variant]), "a string is no variant")
''',
    ),
    dict(
        id="c03-type-numbers", property="C03",
        needs="an array of type long long, which is int64 on this platform",
        what_it_breaks="dtypes are compared by their type number, so np.longlong arrays do not match np.int64",
        edits=[("_array.py", "elif cls.dtype and cls.dtype != inst.dtype and cls.kind == \"\":", "elif cls.dtype and (cls.dtype.num != inst.dtype.num or cls.dtype != inst.dtype) and cls.kind == \"\":")],
        demo='''
import numpy as np
from asta import Array
a = np.zeros(3, dtype=np.longlong)
must(a.dtype == np.dtype(np.int64), "the same dtype")
must(isinstance(a, Array[np.int64, 3]), "matches")
''',
    ),
    dict(
        id="c04-symbolic-ellipses", property="C04",
        needs="two adjacent ellipses in a shape with symbols",
        what_it_breaks="adjacent ellipses in shapes with symbols are not noticed when they are written",
        edits=[("parser.py", "    if isinstance(shape, tuple) and is_subtuple((..., ...), shape, set())[0]:\n", "    literal = not any(isinstance(dim, Expr) for dim in shape or ())\n    if shape is not None and literal and is_subtuple((..., ...), shape, set())[0]:\n")],
        demo='''
from asta import Array, symbols
def invalid(item):
    try:
        Array[item]
    except TypeError:
        return True
    return False
must(invalid((3, ..., ...)), "literals")
must(invalid((symbols.X, ..., ...)), "symbols")
''',
    ),
    dict(
        id="c04-tuple-behind-dtype", property="C04",
        needs="a shape written as a tuple behind a dtype, with an invalid dimension",
        what_it_breaks="the dimensions of a tuple of at least three elements are not verified",
        edits=[("parser.py", "        if item:\n            verify_dimensions(cls, item)\n            shape = SubscriptableMeta.get_shape(item)\n", "        if item:\n            if dtype is None or len(item) < 3:\n                verify_dimensions(cls, item)\n            shape = SubscriptableMeta.get_shape(item)\n")],
        demo='''
import numpy as np
from asta import Array
def invalid(item):
    try:
        Array[item]
    except TypeError:
        return True
    return False
must(invalid((1, 2, 2.5)), "without a dtype")
must(invalid((float, (1, 2.5))), "short")
must(invalid((float, (1, 2, 2.5))) and invalid((float, 1, 2, "3")), "with a dtype")
''',
    ),
    dict(
        id="c09-related-equations", property="C09",
        needs="a return value whose symbols are tied to the arguments only through another symbol",
        what_it_breaks="only the equations that contain a symbol of the return annotation are solved with it",
        edits=[("decorators.py", "            equations = check_annotation(\"return\", ret, annotation, equations, ox)\n", "            result = check_annotation(\"return\", ret, annotation, set(), ox)\n            names = {s for eq in result for s in eq.free_symbols}\n            linked = {eq for eq in equations if names & eq.free_symbols}\n            equations = result | linked\n")],
        demo='''
import numpy as np
from asta import Array, typechecked, symbols
X, Y = symbols.X, symbols.Y
@typechecked
def f(a: Array[X], b: Array[X + Y], k: Array[...]) -> Array[Y]:
    return k
z = np.zeros
must(accepts(f, z(2), z(5), z(3)), "fine")
must(not accepts(f, z(2), z(5), z(4)), "2 + 4 is not 5")
''',
    ),
    dict(
        id="c09-many-symbols", property="C09",
        needs="more than five symbols in one call",
        what_it_breaks="systems with more than five symbols are not solved",
        edits=[("utils.py", "    solutions: List[Dict[Symbol, int]] = solvers.solve(equations, symbols, dict=True)\n", "    if len(symbols) > 5:\n        return True, symbols, []\n    solutions: List[Dict[Symbol, int]] = solvers.solve(equations, symbols, dict=True)\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
from asta.symbols import A, B, C, D, E, F
@typechecked
def f(a: Array[A, B, C], b: Array[D, E, F], c: Array[A]):
    return None
z = np.zeros
must(accepts(f, z((1, 2, 3)), z((4, 5, 6)), z(1)), "fine")
must(not accepts(f, z((1, 2, 3)), z((4, 5, 6)), z(2)), "A is 1 and 2")
''',
    ),
    dict(
        id="c11-consumed-iterators", property="C11",
        needs="a decorated generator function, or one that returns an iterator",
        what_it_breaks="an iterator is exhausted and replaced by another one over the same elements",
        edits=[("decorators.py", "        ret = decorated(*args, **kwargs)\n", "        ret = decorated(*args, **kwargs)\n        if hasattr(ret, \"__next__\"):\n            ret = iter(list(ret))\n")],
        demo='''
from asta import typechecked
it = iter([1, 2])
@typechecked
def f(n: int):
    return it
out, _text = quiet(f, 3)
must(out is it, "the very iterator")
''',
    ),
    dict(
        id="c11-qualified-name", property="C11",
        needs="a decorated method or nested function",
        what_it_breaks="the name of the decorated function becomes the qualified one",
        edits=[("decorators.py", "    _wrapper.__name__ = decorated.__name__\n", "    _wrapper.__name__ = decorated.__qualname__\n")],
        demo='''
from asta import typechecked
@typechecked
def f(n: int):
    return n
class C:
    @typechecked
    def m(self, n: int):
        return n
must(f.__name__ == "f", "a function")
must(C.m.__name__ == "m", "a method")
''',
    ),
    dict(
        id="c12-same-symbols", property="C12",
        needs="two expressions over the same placeholders in one shape",
        what_it_breaks="the second of two different expressions over the same placeholders gets the value of the first",
        edits=[("substitution.py", "                        expression = expression.subs(symbol, value)\n", "                        key = (symbol, len(item.args))\n                        if len(item.args) > 1 and key in seen:\n                            expression = seen[key]\n                        else:\n                            expression = expression.subs(symbol, value)\n                            seen[key] = expression\n"),
               ("substitution.py", "    uninitialized_names: Set[str] = set()\n    initialized = True\n", "    uninitialized_names: Set[str] = set()\n    initialized = True\n    seen: dict = {}\n")],
        demo='''
import numpy as np
from asta import Array, typechecked, dims
@typechecked
def f(a: Array[dims.P + 1, dims.P + 2]):
    return None
dims.P = 3
must(accepts(f, np.zeros((4, 5))), "P is 3")
must(not accepts(f, np.zeros((4, 4))), "5, not 4")
''',
    ),
    dict(
        id="c14-variadic-first", property="C14",
        needs="check-all-sequence-elements=no and a tuple of any length with a wrong element behind the first",
        what_it_breaks="with check-all-sequence-elements=no only the first element of Tuple[T, ...] is checked",
        edits=[("origins.py", "            elem_type = tuple_params[0]\n", "            elem_type = tuple_params[0]\n            if not ox.check_all_sequence_elements:\n                value = value[:1]\n")],
        files={},
        demo='''
from typing import Tuple
import numpy as np
from asta import Array, typechecked
from asta.config import get_ox
get_ox().check_all_sequence_elements = False
@typechecked
def f(a: Tuple[Array[3], ...]):
    return None
a, b = np.zeros(3), np.zeros(4)
must(accepts(f, (a, a)) and not accepts(f, (b, a)), "the first")
must(not accepts(f, (a, b)), "the second; the option is for lists and sequences")
''',
    ),
    dict(
        id="c14-shared-elements", property="C14",
        needs="a list that contains the same array twice, of which the element type depends on a symbol set elsewhere",
        what_it_breaks="the equations of the last element replace the ones of the elements before",
        edits=[("origins.py", "            for i, v in enumerate(value_iterable):\n                element_equations = check_annotation(\n                    f\"{name}[{i}]\", v, value_type, equations, ox\n                )\n                equations = equations.union(element_equations)\n\n    return equations\n\n\ndef check_dict(", "            known = equations\n            for i, v in enumerate(value_iterable):\n                element_equations = check_annotation(\n                    f\"{name}[{i}]\", v, value_type, known, ox\n                )\n                equations = known.union(element_equations)\n\n    return equations\n\n\ndef check_dict(")],
        demo='''
from typing import Sequence
import numpy as np
from asta import Array, typechecked, symbols
X = symbols.X
@typechecked
def f(a: Sequence[Array[X]], b: Array[X]):
    return None
z = np.zeros
must(accepts(f, [z(3), z(3)], z(3)), "fine")
must(not accepts(f, [z(3), z(3)], z(4)), "the last one")
must(not accepts(f, [z(4), z(3)], z(3)), "the first one")
''',
    ),
    dict(
        id="c15-none-anyway", property="C15",
        needs="None for a union without it",
        what_it_breaks="None is accepted by every union",
        edits=[("origins.py", "        union_params = annotation.__args__\n", "        union_params = annotation.__args__\n    if value is None:\n        return equations\n")],
        demo='''
from typing import Optional, Union
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: Optional[Array[3]]):
    return None
@typechecked
def g(a: Union[Array[3], Array[4]]):
    return None
must(accepts(f, None) and accepts(g, np.zeros(4)), "fine")
must(not accepts(g, None), "None is no member")
''',
    ),
    dict(
        id="c16-stripped", property="C16",
        needs="the variable has a 1 with spaces around it",
        what_it_breaks="spaces around the value of the variable are ignored",
        edits=[("decorators.py", "    if \"ASTA_TYPECHECK\" in os.environ:\n        enabled = ox.on and os.environ[\"ASTA_TYPECHECK\"] == \"1\"\n", "    variable = os.environ.get(\"ASTA_TYPECHECK\")\n    if variable is not None:\n        enabled = ox.on and variable.strip() == \"1\"\n")],
        demo='''
import os
from asta import typechecked
def f(n: int):
    return n
os.environ["ASTA_TYPECHECK"] = "0"
must(typechecked(f) is f, "off")
os.environ["ASTA_TYPECHECK"] = "1 "
must(typechecked(f) is f, "not 1, so off as well")
''',
    ),
    dict(
        id="c17-set-goes-on", property="C17",
        needs="raise-errors=no and a value that is no set",
        what_it_breaks="the elements of a value that is not a set are iterated over, which raises for numbers",
        edits=[("origins.py", "        fail_set(name, annotation, qualified_name(value), ox)\n        return equations\n", "        fail_set(name, annotation, qualified_name(value), ox)\n"),
               ("origins.py", "    # Equivalently: if annotation is ``Set[*]``.\n    if annotation is not set:\n", "    # Equivalently: if annotation is ``Set[*]``.\n    elif annotation is set:\n        return equations\n    if annotation is not set:\n")],
        demo='''
from typing import Set
from asta import typechecked
from asta.config import get_ox
get_ox().raise_errors = False
@typechecked
def f(a: Set[int]):
    return 7
must(quiet(f, {1})[0] == 7, "fine")
must(accepts(f, 3) and quiet(f, 3)[0] == 7, "never stops the program")
''',
    ),
    dict(
        id="c17-named-tuple-goes-on", property="C17",
        needs="raise-errors=no and something else in place of a named tuple",
        what_it_breaks="the fields of something that is not the named tuple are looked up, which raises",
        edits=[("origins.py", "            fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)\n            return equations\n", "            fail_namedtuple(name, qualified_name(annotation), qualified_name(value), ox)\n")],
        demo='''
from typing import NamedTuple
from asta import Array, typechecked
from asta.config import get_ox
get_ox().raise_errors = False
class P(NamedTuple):
    a: int
    b: int
@typechecked
def f(a: P):
    return 7
def runs(*args):
    try:
        return quiet(f, *args)[0] == 7
    except Exception:
        return False
must(runs(P(1, 2)), "fine")
must(runs((1, 2)), "never stops the program")
''',
    ),
    dict(
        id="c18-swapped-project-files", property="C18",
        needs="both a pyproject.toml and a setup.cfg with settings",
        what_it_breaks="setup.cfg comes before pyproject.toml",
        edits=[("config.py", "    config_names = rc_names + (\"pyproject.toml\", \"setup.cfg\")\n", "    config_names = rc_names + (\"setup.cfg\", \"pyproject.toml\")\n")],
        demo='''
open("pyproject.toml", "w").write("[tool.asta.master]\\nprint-passes = 'no'\\n")
open("setup.cfg", "w").write("[asta.master]\\nprint-passes=yes\\nraise-errors=no\\n")
from asta.config import get_ox
must(get_ox().print_passes is False and get_ox().raise_errors is True, "pyproject.toml comes first")
''',
    ),
    dict(
        id="c18-false-is-missing", property="C18",
        needs="a TOML boolean false for an option that is on by default",
        what_it_breaks="false values count as missing ones",
        edits=[("config.py", "            if key not in settings:\n", "            if not settings.get(key):\n")],
        demo='''
open("pyproject.toml", "w").write("[tool.asta.master]\\nraise-errors = false\\n")
from asta.config import get_ox
must(get_ox().raise_errors is False, "not the default")
''',
    ),
    dict(
        id="c18-default-section", property="C18",
        needs="a pyproject.toml of other tools and a setup.cfg",
        what_it_breaks="a pyproject.toml without an asta section ends the search",
        edits=[("config.py", "            if config_name.endswith(\".toml\") and not _toml_has_config(config_name):\n                continue\n", "            if config_name.endswith(\".toml\") and not _toml_has_config(config_name):\n                break\n")],
        demo='''
open("pyproject.toml", "w").write("[tool.other]\\nx = 1\\n")
open("setup.cfg", "w").write("[asta.master]\\nprint-passes=no\\n")
from asta.config import get_ox
must(get_ox().print_passes is False, "setup.cfg comes next")
''',
    ),
    dict(
        id="c16-silent-warning", property="C16",
        needs="checking switched off by a value of the variable other than 0",
        what_it_breaks="the warning is shown although ASTA_TYPECHECK switches checking off, if the value is not 0",
        edits=[("warning.py", "if \"ASTA_TYPECHECK\" in os.environ:\n", "if os.environ.get(\"ASTA_TYPECHECK\", \"\").isdigit():\n")],
        demo='''
import os
open(".astarc", "w").write("[MASTER]\\nprint-passes=no\\n")
os.environ["ASTA_TYPECHECK"] = "no"
_none, out = quiet(__import__, "asta")
must("ENABLED" not in out, "checking is off")
''',
    ),
    dict(
        id="c19-falsy-defaults", property="C19",
        needs="a callable whose parameter has a default such as 0 or None",
        what_it_breaks="parameters with a false default count as mandatory",
        edits=[("origins.py", "                [\n                    param.name\n                    for param in positional_args\n                    if param.default is inspect.Parameter.empty\n                ]\n            )\n", "                [\n                    param.default\n                    for param in positional_args\n                    if not param.default or param.default is inspect.Parameter.empty\n                ]\n            )\n")],
        demo='''
from typing import Callable
open(".astarc", "w").write("[MASTER]\\ncheck-non-asta-types=yes\\n")
from asta import typechecked
@typechecked
def f(c: Callable[[int], int]):
    return None
must(accepts(f, lambda a: a) and accepts(f, lambda a, b=1: a), "fine")
must(not accepts(f, lambda a, b: a), "too many")
must(accepts(f, lambda a, b=None: a), "b is optional")
''',
    ),
    dict(
        id="c19-raw-files", property="C19",
        needs="an unbuffered binary file",
        what_it_breaks="raw files are not accepted as BinaryIO",
        edits=[("origins.py", "        if not isinstance(value, (RawIOBase, BufferedIOBase)):\n", "        if not isinstance(value, BufferedIOBase):\n")],
        demo='''
import io
from typing import BinaryIO
open(".astarc", "w").write("[MASTER]\\ncheck-non-asta-types=yes\\n")
from asta import typechecked
@typechecked
def f(c: BinaryIO):
    return None
must(accepts(f, io.BytesIO()) and not accepts(f, io.StringIO()), "buffered, text")
with open("file", "wb", buffering=0) as raw:
    must(accepts(f, raw), "raw")
''',
    ),
    dict(
        id="c20-dates", property="C20",
        needs="a date without a time",
        what_it_breaks="dates are scalars",
        edits=[("constants.py", "    datetime.datetime,\n", "    datetime.date,\n")],
        demo='''
import datetime
from asta import Scalar
must(isinstance(datetime.datetime(2020, 1, 1), Scalar), "datetime")
must(not isinstance(datetime.date(2020, 1, 1), Scalar), "a date is none")
''',
    ),
    dict(
        id="c20-anything-shapeless", property="C20",
        needs="an object that is no array but has an empty shape",
        what_it_breaks="every object with an empty shape is a scalar",
        edits=[("constants.py", "        for generic_type in cls._GENERIC_TYPES:\n", "        if getattr(inst, \"shape\", None) == ():\n            return True\n        for generic_type in cls._GENERIC_TYPES:\n")],
        demo='''
from asta import Scalar
class Thing:
    shape = ()
must(isinstance(3, Scalar) and not isinstance([], Scalar), "fine")
must(not isinstance(Thing(), Scalar), "no scalar")
''',
    ),
    dict(
        id="c20-tensor-rank", property="C20",
        needs="a TensorFlow tensor without elements",
        what_it_breaks="tensors whose first size is zero are scalars",
        edits=[("constants.py", "                if inst.shape == tuple():  # type: ignore[attr-defined]\n", "                if not any(inst.shape[:1]):  # type: ignore[attr-defined]\n")],
        demo='''
import numpy as np
from asta import Scalar
must(isinstance(np.array(3), Scalar) and not isinstance(np.zeros(3), Scalar), "fine")
must(not isinstance(np.zeros((0, 2)), Scalar), "two dimensions")
''',
    ),
    dict(
        id="c22-none-check", property="C22",
        needs="isinstance(None, Tensor) while torch is missing",
        what_it_breaks="None is silently no instance of the class of a missing library",
        edits=[("unusable.py", "        cls._import()\n        return False\n", "        if inst is not None:\n            cls._import()\n        return False\n")],
        demo='''
from asta import Tensor
def fails(value):
    try:
        isinstance(value, Tensor)
    except ImportError:
        return True
    return False
must(fails(3), "a number")
must(fails(None), "None")
''',
    ),
    dict(
        id="c22-same-class", property="C22",
        needs="a missing class compared with one of the other missing library, or itself",
        what_it_breaks="comparisons between classes are silent",
        edits=[("unusable.py", "        cls._import()\n        return super().__eq__(other)\n", "        if not isinstance(other, type):\n            cls._import()\n        return cls is other\n")],
        demo='''
from asta import Array, Tensor
def fails(value):
    try:
        Tensor == value
    except ImportError:
        return True
    return False
must(fails(3), "a number")
must(fails(Array[3]), "a type")
''',
    ),
    dict(
        id="c23-nested-index", property="C23",
        needs="a wrong element of a list in a list",
        what_it_breaks="only the innermost index of a nested list is named",
        edits=[("origins.py", "                for i, v in enumerate(value_iterable):\n                    element_equations = check_annotation(\n                        f\"{name}[{i}]\",", "                for i, v in enumerate(value_iterable):\n                    element_equations = check_annotation(\n                        f\"{name.split('[')[0]}[{i}]\",")],
        demo='''
from typing import List
import numpy as np
from asta import Array, typechecked
@typechecked
def f(a: List[List[Array[3]]]):
    return None
def message(value):
    try:
        quiet(f, value)
    except TypeError as err:
        return str(err)
z = np.zeros
must("'a[0][1]'" in message([[z(3), z(4)]]), "the path")
''',
    ),
    dict(
        id="c23-outer-header", property="C23",
        needs="a decorated function that calls another one and returns a wrong value, with print-passes=no",
        what_it_breaks="a wrong result is reported under the name of the function that was called last",
        edits=[("decorators.py", "        # Check return.\n        ox.decorated = decorated\n", "        # Check return.\n")],
        demo='''
import numpy as np
from asta import Array, typechecked
from asta.config import get_ox
get_ox().raise_errors = False
get_ox().print_passes = False
@typechecked
def inner(a: Array[3]):
    return None
@typechecked
def outer(a: Array[3]) -> Array[4]:
    inner(a)
    return a
out = quiet(outer, np.zeros(3))[1]
must("FAILED" in out and "outer" in out, "the result of outer is wrong")
must("inner" not in out, "nothing is wrong with inner")
''',
    ),
    dict(
        id="c24-defaults-inserted", property="C24",
        needs="a defaultdict passed for a TypedDict that may lack keys",
        what_it_breaks="looking up a missing key of a typed dictionary inserts it",
        edits=[("origins.py", "        argvalue = value.get(key, MISSING_VALUE)\n", "        try:\n            argvalue = value[key]\n        except KeyError:\n            argvalue = MISSING_VALUE\n")],
        demo="""
import collections
from typing import TypedDict
import numpy as np
from asta import Array, typechecked
TD = TypedDict("TD", {"a": Array[3], "b": Array[3]}, total=False)
@typechecked
def f(d: TD):
    return sorted(d)
d = collections.defaultdict(lambda: np.zeros(3), a=np.zeros(3))
must(quiet(f, d)[0] == ["a"], "no key is added")
must(list(d) == ["a"], "no key was added")
""",
    ),
    dict(
        id="c24-iterables-read", property="C24",
        needs="a generator or iterator passed for an Iterable annotation",
        what_it_breaks="the elements of iterables are checked, which uses up generators",
        edits=[("origins.py", "    Sequence: check_sequence,\n", "    Sequence: check_sequence,\n    collections.abc.Iterable: check_iterable,\n"),
               ("origins.py", "def check_dict(\n", "def check_iterable(\n    name: str, value: Any, annotation: Any, equations: Set[Expr], ox: Oxentiel\n) -> Set[Expr]:\n    \"\"\" Check an argument with annotation ``Iterable[*]``. \"\"\"\n    if not isinstance(value, collections.abc.Iterable):\n        fail_sequence(name, annotation, qualified_name(value), ox)\n        return equations\n    for i, v in enumerate(value):\n        equations = check_annotation(\n            f\"{name}[{i}]\", v, annotation.__args__[0], equations, ox\n        )\n    return equations\n\n\ndef check_dict(\n")],
        demo="""
from typing import Iterable
import numpy as np
from asta import Array, typechecked
@typechecked
def f(it: Iterable[Array[3]], a: Array[3]):
    return len(list(it))
must(quiet(f, (np.zeros(3) for _ in range(4)), np.zeros(3))[0] == 4, "all elements are still there")
""",
    ),
    dict(
        id="c24-popped-return", property="C24",
        needs="a second call, or any other use of __annotations__ after the first",
        what_it_breaks="the return annotation is removed from the function when it is first checked",
        edits=[("decorators.py", "            annotation = annotations[\"return\"]\n", "            annotation = annotations.pop(\"return\")\n")],
        demo="""
import numpy as np
from asta import Array, typechecked
def f(a: Array[3]) -> Array[3]:
    return a
g = typechecked(f)
quiet(g, np.zeros(3))
must(sorted(f.__annotations__) == ["a", "return"], "annotations are kept")
""",
    ),
    dict(
        id="c24-files-read", property="C24",
        needs="check-non-asta-types=yes and an open text file",
        what_it_breaks="text files are recognised by reading a line of them",
        edits=[("origins.py", "        if not isinstance(value, TextIOBase):\n", "        if not isinstance(value, IOBase) or not isinstance(value.readline(), str):\n")],
        demo="""
import io
from typing import TextIO
from asta import typechecked
from asta.config import get_ox
get_ox().check_non_asta_types = True
@typechecked
def f(file: TextIO):
    return file.read()
must(quiet(f, io.StringIO("one\\ntwo\\n"))[0] == "one\\ntwo\\n", "nothing is skipped")
""",
    ),
    dict(
        id="c24-unset-becomes-wildcard", property="C24",
        needs="raise-errors=no and a placeholder that is not set",
        what_it_breaks="reporting an unset placeholder sets it to the wildcard",
        edits=[("substitution.py", "                        uninitialized_names.add(name)\n                        initialized = False\n                    else:", "                        uninitialized_names.add(name)\n                        initialized = False\n                        asta.dims.symbol_map[symbol] = -1\n                    else:")],
        demo="""
import numpy as np
from asta import Array, dims, typechecked
from asta.config import get_ox
get_ox().raise_errors = False
@typechecked
def f(a: Array[dims.UNSET]):
    return None
quiet(f, np.zeros(3))
must(not isinstance(dims.UNSET, int), "it is still not set")
""",
    ),
    dict(
        id="c25-underscores", property="C25",
        needs="two dims whose names differ in leading or trailing underscores",
        what_it_breaks="underscores around the names of dims are ignored",
        edits=[("dims.py", "        symbol = symbols(name)\n        if symbol not in", "        symbol = symbols(name.strip(\"_\") or name)\n        if symbol not in"),
               ("dims.py", "            symbol = symbols(name)\n            self", "            symbol = symbols(name.strip(\"_\") or name)\n            self")],
        demo="""
from asta import dims
dims.N = 3
dims.N_ = 4
must(dims.N == 3 and dims.N_ == 4, "two names")
""",
    ),
    dict(
        id="c25-early-store", property="C25",
        needs="a refused setting of a shape, after which the old value is used",
        what_it_breaks="a tuple with an element that is not an integer is stored before it is refused",
        edits=[("shapes.py", "            for element in value:\n                if not isinstance(element, int):\n                    raise TypeError(\"Shape elements must be integers.\")\n            self.placeholder_map[name] = value\n", "            self.placeholder_map[name] = value\n            for element in value:\n                if not isinstance(element, int):\n                    raise TypeError(\"Shape elements must be integers.\")\n")],
        demo="""
from asta import shapes
shapes.S = (2, 3)
try:
    shapes.S = (2, "3")
except TypeError:
    pass
must(shapes.S == (2, 3), "the value is kept")
""",
    ),
    dict(
        id="c25-zero-forgets", property="C25",
        needs="a dim set to 0",
        what_it_breaks="setting a dim to 0 makes it unset",
        edits=[("dims.py", "            self.symbol_map[symbol] = value\n", "            self.symbol_map[symbol] = value or None\n")],
        demo="""
from asta import dims
dims.K = 5
dims.K = 0
must(isinstance(dims.K, int) and dims.K == 0, "it is 0")
""",
    ),
    dict(
        id="c12-halves", property="C12",
        needs="an expression that divides a placeholder with a value that is not divisible",
        what_it_breaks="expressions that evaluate to a fraction are rounded down",
        edits=[("substitution.py", "                if not isinstance(expression, Integer):\n", "                if not isinstance(expression, (Integer, Rational)):\n"),
               ("substitution.py", "from sympy.core.numbers import Number, Integer\n", "from sympy.core.numbers import Number, Integer, Rational\n")],
        demo="""
import numpy as np
from asta import Array, dims, typechecked
@typechecked
def f(a: Array[dims.HALF / 2]):
    return None
dims.HALF = 7
try:
    quiet(f, np.zeros(3))
    ok = False
except TypeError:
    ok = True
must(ok, "3.5 is no size")
""",
    ),
]
