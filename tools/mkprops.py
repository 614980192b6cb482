import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Array shape patterns accept exactly the shapes they denote",
"For every shape pattern made of integers, -1 wildcards and (non-adjacent) ellipses, isinstance(a, Array[pattern]) is True exactly when a's shape can be obtained from the pattern by replacing each -1 with one positive size and each ellipsis with a run, possibly empty, of positive sizes. An integer that is not -1 stands for exactly that size, so zero-sized dimensions are matched only by a literal 0. The check itself never raises.",
["inputs"],"all patterns of nonnegative integers, -1 and '...' and all array shapes, including rank 0 and zero sizes",
"The tests sample shapes with hypothesis and try a few dozen hand-written patterns; placement of several ellipses and wildcards against every rank and size is a quantified claim over two unbounded sequences.",
["asta/utils.py","asta/_array.py"],[("shapecheck / place_fragments / check_equal","asta/utils.py"),("__instancecheck__","asta/_array.py")],["isinstance(array, Array[...])"])

p("C02","Tensor and TFTensor accept exactly the same shapes as Array",
"For every shape pattern of integers, wildcards, ellipses and symbolic sizes, isinstance(t, Tensor[pattern]) and isinstance(t, TFTensor[pattern]) give the same answer as isinstance(a, Array[pattern]) for an array a of the same shape. Writing the shape as a torch.Size or tf.TensorShape, with or without a dtype before it, means the same as writing the tuple.",
["inputs"],"all patterns and all fully defined tensor shapes, for both tensor families",
"Torch tests are skipped where torch is missing and the TensorFlow tests repeat only a sample of the array cases; agreement of three implementations is a claim over all inputs.",
["asta/_tensor.py","asta/_tftensor.py","asta/utils.py","asta/parser.py"],[("__instancecheck__","asta/_tensor.py, asta/_tftensor.py"),("_after_subscription","asta/_tftensor.py")],["isinstance(tensor, Tensor[...])","isinstance(tensor, TFTensor[...])"])

p("C03","A dtype in the subscript restricts exactly the element type",
"isinstance(x, T[dtype]) is True exactly when x has that element type, and isinstance(x, T[dtype, shape]) exactly when in addition the shape matches; without a dtype every element type is accepted. For arrays, int, float, bool and complex mean NumPy's default dtypes, bytes and str match strings of any length, datetime and timedelta match any unit, and an explicit NumPy dtype matches only itself. For Tensor and TFTensor the documented Python types mean the documented library dtypes, and objects that are not arrays (tensors) of that family never match.",
["inputs"],"all supported dtypes in the subscript, all element types of the value, all shapes",
"Tests pick single dtype pairs with fixed shapes; that dtype and shape are independent conjuncts for all sizes is not something samples settle.",
["asta/_array.py","asta/_tensor.py","asta/_tftensor.py","asta/constants.py"],[("get_dtype","asta/_array.py, asta/_tensor.py, asta/_tftensor.py"),("__instancecheck__","asta/_array.py")],["isinstance(x, T[dtype, shape])"])

p("C04","Equivalent subscripts denote the same type; invalid ones raise TypeError",
"Array[a, b], Array[(a, b)] and, after a dtype, T[d, a, b] and T[d, (a, b)] are equal types that accept the same values, and (), Scalar mean the shape () with or without a dtype. A subscript with two adjacent ellipses anywhere, with a dimension that is not an integer (a bool is none), ellipsis, tuple, placeholder or symbolic expression, or that mixes a scalar marker with other dimensions, raises TypeError when it is written. Valid subscripts never raise.",
["inputs"],"all shapes written in any of the documented forms; all positions of an invalid element",
"The tests check a few literal spellings; the equivalence must hold for every shape and the rejection for every position.",
["asta/parser.py","asta/classes.py"],[("parse_subscript / verify_dimensions","asta/parser.py"),("SubscriptableMeta.get_shape","asta/classes.py")],["Array[...]","Tensor[...]","TFTensor[...]"])

p("C05","Equality of types is structural and consistent with hashing",
"Two types of the same family are equal exactly when they have the same dtype, shape and keyword attributes, types of different families are never equal, and equal types always have equal hashes. This holds whatever was done with the types before: hashing, comparing, checking or subscripting a type changes neither its hash nor what it is equal to.",
["inputs","histories"],"all pairs of types built from symbolic shapes, dtypes and attributes; all orders of hash, comparison and subscription",
"The tests compare a handful of pairs and never hash a type before deriving another from it.",
["asta/_array.py","asta/_tensor.py","asta/_tftensor.py","asta/classes.py"],[("__eq__","asta/_array.py, asta/_tensor.py, asta/_tftensor.py"),("__hash__","asta/classes.py")],["==","hash()","dict and set membership"])

p("C06","Subscripting an alias refines it and leaves the alias unchanged",
"Subscripting an already subscripted type replaces only the parts given in the new subscript: a shape keeps the dtype and attributes, a dtype keeps the shape and attributes, attributes keep both. The type it was derived from, and the unsubscripted class, keep accepting exactly the values they accepted before.",
["inputs","histories"],"all sequences of refinements with dtype, shape and attribute subscripts, for all sizes",
"Tests refine an alias once with fixed values; the claim is over chains of refinements and over all values.",
["asta/classes.py","asta/parser.py","asta/_array.py"],[("SubscriptableMeta.__getitem__","asta/classes.py"),("parse_subscript","asta/parser.py")],["T[...][...]","isinstance after refinement"])

p("C07","Keyword attributes are required exactly, jointly with dtype and shape",
"isinstance(x, T[..., {name: value}]) is True exactly when dtype and shape match, x has every named attribute, and each attribute equals the given value. When the value is a symbolic expression the attribute must be a number, and the equations of all attributes and of the shape (with at most one ellipsis) must be solvable together. The same holds for annotations checked by the decorator.",
["inputs"],"all attribute values, all shapes, and symbolic expressions relating attributes to sizes",
"Tests set one attribute to one value; that attribute equations and shape equations are solved together is a claim over all systems.",
["asta/utils.py","asta/parser.py","asta/_array.py","asta/origins.py"],[("attrcheck / astasolver","asta/utils.py"),("refresh / check_asta","asta/origins.py")],["isinstance(x, T[shape, {attr: value}])","@typechecked"])

p("C08","Symbolic sizes match exactly when the system is solvable",
"isinstance(x, T[shape]) with symbolic expressions in the shape is True whenever some assignment of positive integers to the symbols makes the expressions equal to the sizes they are matched with, and False whenever no assignment of values at all does. A symbol that occurs several times has one value, literals, wildcards and ellipses in the same shape keep their meaning, and any placement of the ellipses that gives a solvable system is enough.",
["inputs"],"all sizes against all bounded systems of linear and polynomial expressions, with ellipses and wildcards",
"Tests try fixed systems with fixed shapes; solvability for all sizes needs symbolic reasoning.",
["asta/utils.py"],[("astasolver / check_equal / place_fragments","asta/utils.py")],["isinstance(x, T[X, X + 1, ...])"])

p("C09","Symbols agree across all arguments and the return value of one call",
"A decorated call whose annotations contain at most one ellipsis per shape is accepted when one assignment of positive integers to the symbols satisfies the shapes of all arguments and of the return value, and raises TypeError when no assignment satisfies them together, even if each value matches its own annotation. Arguments that disagree are rejected before the function runs. Calls are independent: no call, successful or not, influences the outcome of a later one or of one running at the same time in another thread.",
["inputs","histories","schedules"],"all sizes of all arguments and results, all sequences of calls including failing ones, overlapping calls in two threads",
"Tests call a function once or twice with fixed shapes; the claim relates all values of several arguments and arbitrary earlier calls.",
["asta/decorators.py","asta/origins.py","asta/utils.py"],[("typechecked._wrapper","asta/decorators.py"),("check_asta","asta/origins.py"),("astasolver","asta/utils.py")],["calls of functions decorated with @typechecked"])

p("C10","Every argument is checked against its own parameter's annotation",
"However the arguments of a decorated call are passed - by position, by keyword in any order, or left to their defaults - each value is checked against the annotation of the parameter it is bound to, and a default that was not used is not checked. Positional-only, keyword-only and self/cls parameters follow Python's binding rules, and a call that Python could not bind, or of a function with a parameter that is not annotated (other than a leading self, cls, mcs or _cls), raises TypeError without running the function.",
["inputs"],"all ways to pass up to four arguments, all sizes, functions and methods",
"Tests use a few signatures; which value meets which annotation for every split between positional, keyword and default is combinatorial.",
["asta/decorators.py"],[("validate_annotations","asta/decorators.py")],["calls of functions decorated with @typechecked"])

p("C11","Decorated functions run once, unchanged, iff their arguments check out",
"With checking enabled, the wrapped function runs exactly once, with the very objects the caller passed, when all arguments match, and not at all when one of them fails. Its result object is returned as is when it matches the return annotation, otherwise TypeError is raised; an exception raised by the function reaches the caller unchanged. The decorated function keeps its name and module.",
["inputs"],"all argument and result shapes, results and exceptions of the function",
"Tests look at accepted or rejected calls only, never at how often and with what the function ran, for chosen shapes.",
["asta/decorators.py"],[("typechecked._wrapper","asta/decorators.py")],["calls of functions decorated with @typechecked"])

p("C12","Dimension placeholders use the value they have at the time of the call",
"In an annotation of a decorated function every dimension placeholder that had no value when the annotation was written, alone or inside an arithmetic expression, stands for the value it has when the call is made, whatever values it had in earlier calls; one that already had a value means that value. A placeholder set to -1 is a wildcard, and an expression that evaluates to another number matches only that size (never, if it is negative). An unset placeholder, and an expression that does not evaluate to an integer, raise TypeError, as does setting a placeholder to something that is not an integer, which leaves its value unchanged.",
["inputs","histories"],"all values, all expressions, all interleavings of assignments, definitions and calls up to the bound",
"Tests set a placeholder once or twice and use fixed shapes; the claim is over histories and values.",
["asta/dims.py","asta/substitution.py","asta/origins.py"],[("Dimensions.__getattr__ / __setattr__","asta/dims.py"),("substitute","asta/substitution.py"),("refresh","asta/origins.py")],["dims.<NAME> = value","calls of decorated functions"],
[{"name":"symbol_map","meaning":"current value of each dimension","where":"asta/dims.py"}])

p("C13","Shape placeholders expand in place to their value at the time of the call",
"In an annotation of a decorated function a shape placeholder that had no value when the annotation was written - alone, unpacked, or concatenated with tuples and other placeholders on either side - stands for the sizes of the tuple it is set to when the call is made, in the written order. Building a concatenation does not change its operands, an unset placeholder raises TypeError at the call, and setting one to anything but a tuple of integers raises TypeError and leaves its value unchanged.",
["inputs","histories"],"all tuples of sizes up to the bound, all concatenations, all interleavings of assignments and calls",
"Tests concatenate once with fixed tuples.",
["asta/shapes.py","asta/placeholder.py","asta/substitution.py","asta/origins.py"],[("Shapes.__getattr__ / __setattr__","asta/shapes.py"),("Placeholder.__add__ / __radd__ / __iter__","asta/placeholder.py"),("substitute","asta/substitution.py")],["shapes.<NAME> = value","calls of decorated functions"],
[{"name":"placeholder_map","meaning":"current value of each shape","where":"asta/shapes.py"}])

p("C14","Arrays inside containers are checked element by element",
"A decorated call whose annotation is a List, Sequence, Set, Dict, Tuple (fixed or variadic), NamedTuple or TypedDict, possibly nested, containing array types is accepted exactly when the value has that container type (and for tuples that length, for TypedDicts those keys) and every contained array matches its own annotation, symbols being shared. With check-all-sequence-elements=no only the first element of lists and sequences counts. Empty containers always pass.",
["inputs","configurations"],"all sizes of all contained arrays, container lengths up to the bound, both values of the option",
"Tests use fixed containers; that no element is skipped or checked against another's type must hold for every position and size.",
["asta/origins.py"],[("check_list / check_sequence / check_set / check_dict / check_tuple / check_typed_dict","asta/origins.py"),("check_annotation","asta/origins.py")],["calls of functions decorated with @typechecked"])

p("C15","A Union accepts a value iff one of its members does",
"A decorated call with a Union or Optional annotation accepts a value exactly when at least one member type accepts it, whatever the order of the members and wherever the union is nested. Members that do not match leave no trace: the constraints on symbols are those of the member that matched. None is accepted exactly when the union contains None.",
["inputs"],"all member orders, all sizes, nesting in containers",
"Tests use one or two unions with fixed values; the order independence and absence of leftovers are claims over all values.",
["asta/origins.py"],[("check_union","asta/origins.py")],["calls of functions decorated with @typechecked"])

p("C16","The decorator is a no-op exactly when checking is switched off",
"Functions and classes are checked exactly when the configuration says on=yes and the environment variable ASTA_TYPECHECK is either unset or \"1\" at decoration time; in every other case the decorator returns the very object it was given. The decision for one function does not depend on, and does not influence, the decision for functions decorated earlier or later under other values of the variable. On import the warning about enabled checks is shown exactly when checks are enabled and print-passes=no.",
["configurations","histories"],"all combinations of configuration, environment values and sequences of decorations",
"The test suite runs under one configuration and environment.",
["asta/decorators.py","asta/config.py","asta/__init__.py","asta/warning.py"],[("typechecked","asta/decorators.py"),("get_ox","asta/config.py")],["typechecked(f)"])

p("C17","With raise-errors=no failures are printed and never stop the program",
"With raise-errors=no a decorated call never raises because of a mismatch, also while another thread makes one: the function runs, its result is returned, and a FAILED line is printed exactly when the same call would raise TypeError with raise-errors=yes. PASSED lines are printed only with print-passes=yes, and neither printing option changes which calls are accepted.",
["inputs","configurations","schedules"],"all sizes and container contents, both options, argument and return failures, overlapping calls in two threads",
"No test runs with raise-errors=no; the equivalence relates two configurations over all inputs.",
["asta/display.py","asta/origins.py","asta/decorators.py"],[("handle_error / handle_pass","asta/display.py"),("fail_* and the checks that go on after them","asta/origins.py")],["stdout and outcome of calls of decorated functions"])

p("C18","Settings come from the first configuration file, over the defaults",
"Each option has the value given in the [MASTER] section (asta.master in setup.cfg and pyproject.toml) of the first configuration file found, and the documented default when that file does not mention it or no file exists. Files in the working directory (astarc, .astarc, then pyproject.toml and setup.cfg if they have such a section) come first; then, if it is a package, astarc and .astarc of each directory above it up to the first that is not a package; then the file named by ASTARC, which comes instead of the ones in the home directory (~/.astarc, ~/.config/astarc). yes and no become True and False.",
["configurations"],"all combinations of present and absent files and of the values of every option in each of them",
"Nothing tests configuration loading; precedence is a claim over all combinations of files.",
["asta/config.py","asta/defaults/astarc"],[("find_default_config_files / read_config / get_ox","asta/config.py")],["asta.config.get_ox()"])

p("C19","check-non-asta-types decides whether ordinary types are enforced",
"With check-non-asta-types=yes a decorated call is accepted exactly when every value, at every depth of the annotation, is an instance of its annotated ordinary type (int, str, float, bool, complex, bytes or bytearray for bytes, Any, None, Literal, Type, Callable with that many parameters, IO, runtime protocols, user classes and containers and unions of these); with no, only None, parametrised container types and array types are enforced and mismatches of ordinary types are ignored. The option never changes how array types are checked.",
["inputs","configurations"],"all combinations of bounded values and annotations, both values of the option",
"Tests enable the option nowhere near all combinations of annotation and value.",
["asta/origins.py"],[("check_annotation","asta/origins.py"),("check_number / check_literal / check_class / check_callable","asta/origins.py")],["calls of functions decorated with @typechecked"])

p("C20","Scalar accepts exactly scalars and zero-dimensional arrays",
"isinstance(x, Scalar) is True exactly when x is a bool, int, float, complex, bytes, str, datetime or timedelta value (subclasses included), or an array or tensor of shape () (NumPy's own scalar types aside). An array or tensor with at least one dimension, of any sizes, and any other object is not a Scalar.",
["inputs"],"all values of the supported types and all array and tensor shapes",
"Tests sample values; rejection for all nonempty shapes, including sizes 0 and 1, is quantified over shapes.",
["asta/constants.py","asta/scalar.py"],[("ScalarMeta.__instancecheck__","asta/constants.py")],["isinstance(x, Scalar)"])

p("C21","Decorating a class decorates each of its own annotated methods",
"Decorating a class returns that class, and afterwards each annotated instance method, class method, static method and nested class defined in it behaves as if it had been decorated itself: bound arguments reach the right parameter, self and cls are never checked, and calls through instances, classes and subclasses are all checked. Attributes that are not annotated methods of the class, among them functions defined elsewhere, are left alone.",
["inputs","programs"],"all kinds of attributes and ways to call them, all argument sizes",
"Tests decorate one class with fixed shapes.",
["asta/decorators.py"],[("typechecked (classes)","asta/decorators.py"),("validate_annotations","asta/decorators.py")],["typechecked(cls)","method calls"])

p("C22","Unavailable tensor libraries fail loudly, never silently",
"When a tensor library is not installed, importing the package works and Array is fully usable, and any attempt to subscript, print or check against that library's tensor class, or to compare it with something else by putting it on the left of == or !=, raises ImportError. Checks of arrays, scalars and decorated functions give the same answers whichever of the tensor libraries is installed.",
["configurations","inputs"],"all combinations of installed tensor libraries, all sizes",
"The test environment has one fixed set of libraries.",
["asta/unusable.py","asta/__init__.py","asta/constants.py"],[("UnusableMeta","asta/unusable.py"),("dummy modules","asta/constants.py")],["Tensor[...]","TFTensor[...]","isinstance"])
p("C23","Diagnostics name the offending value and the decorated function",
"When a decorated call is refused because a value does not match its annotation, the TypeError's message contains, quoted, the name of the parameter (or return) followed by the indices, keys and fields of the offending element, and the type the value has; for arrays also the expected and the actual dtype and shape, and an unset placeholder or the symbols of a system without a solution are named instead. With raise-errors=no a FAILED line in these terms is printed for every value that does not match, and with print-passes=yes a PASSED line for exactly the arrays outside unions that do. A header with the qualified name of the decorated function comes before them.",
["inputs","configurations"],"all sizes, dtypes, positions and nestings of the values that do and do not match, argument and return failures, both printing options",
"Tests assert that TypeError is raised and hardly look at the text; that the text is about the right value is a claim over all values and positions.",
["asta/display.py","asta/origins.py","asta/classes.py","asta/decorators.py"],[("fail_* / pass_argument / get_header / type_representation","asta/display.py"),("names handed down by check_*","asta/origins.py"),("__repr__","asta/classes.py")],["str(TypeError)","stdout of calls of decorated functions"])

p("C24","Checking observes without changing anything",
"A decorated call, whether it is accepted or refused, an isinstance check, a comparison, and the hash or repr of a type change nothing they look at. The values passed are the same objects with the same contents afterwards and while the function runs: containers keep their elements in order, a defaultdict gains no keys, generators, iterators and files are not read, and arrays keep their attributes. The annotations of the function and the types in them, the dictionary of attributes in a subscript, the configuration, the environment and the values of placeholders are as before.",
["inputs","histories","configurations"],"all kinds of values and annotations, matching or not, all sizes, both values of the options, repeated calls",
"Tests look at the outcome of a check and never at what it left behind; a side effect on one kind of container shows up only in the caller's later use of it.",
["asta/origins.py","asta/decorators.py","asta/utils.py","asta/substitution.py"],[("check_* functions","asta/origins.py"),("typechecked / validate_annotations","asta/decorators.py"),("attrcheck","asta/utils.py"),("substitute","asta/substitution.py")],["arguments after calls of decorated functions","func.__annotations__","asta.dims","asta.shapes","asta.config.get_ox()"])

p("C25","Placeholder names hold exactly what was last set to them",
"Reading asta.dims.NAME gives a symbol of that name until it is set and from then on the integer it was last set to; reading asta.shapes.NAME gives one and the same placeholder until it is set and then a tuple of exactly the sizes it was last set to; asta.symbols.NAME is always the same symbol. Names are independent: setting or reading one changes no other, dims and shapes with the same name are different things, and neither a refused setting, building an expression or a concatenation, nor a decorated call changes what any name reads as. Every way to import the modules gives the same names.",
["histories","inputs"],"all sequences of settings, refused settings, reads, constructions and calls up to the bound, all integers",
"Tests set one or two placeholders once; interference between names and over time is a claim over histories.",
["asta/dims.py","asta/shapes.py","asta/symbols.py","asta/placeholder.py"],[("Dimensions","asta/dims.py"),("Shapes","asta/shapes.py"),("__getattr__","asta/symbols.py"),("__add__ / __radd__ / __iter__","asta/placeholder.py")],["asta.dims.X","asta.shapes.X","asta.symbols.X"])

with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P), max(len(r["title"]) for r in P))
