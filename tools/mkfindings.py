"""Writes known-findings.json (which findings are open, which were repaired)."""
import json

FIXED = """
C01 eaaa3cd an ellipsis pattern was matched greedily from the left: Array[..., 3] rejected shape (3, 3), Array[1, ..., X, X] and patterns that need a later placement failed
C07 db5eb91 Array[3, {"attr": 1}] and Tensor/TFTensor equivalents raised instead of constraining the attribute
C07 eb5f516 keyword attributes and the scalar kind were lost when an annotation was refreshed in a decorated call, so they were not checked
C07 5825b16 equations of symbolic attributes were solved apart from those of the shape: inconsistent systems were accepted by isinstance
C07 7376ded a symbolic attribute compared with a string or None crashed or was accepted
C05 0d895e0 equal types had different hashes, types of different dtype or attributes compared equal
C10 d482695 positional arguments were bound to annotations in the order of the annotations, not of the parameters
C10 7090ed8 an unknown keyword argument raised an internal error instead of TypeError
C19 8b7bab0 annotations whose origin is not checked (e.g. deque[int]) raised an internal error
C14 1cf2b41 the fields of NamedTuple values were not checked on Python 3.9 and later
C14 8429816 Tuple[()] accepted any tuple on Python 3.11 and later
C19 022d9bd unparametrized generics (List, Dict) raised on Python 3.9 and later
C19 cad93aa Callable[[A], R] rejected callables with optional parameters
C13 0989bd4 (1,) + shapes.S raised
C03 62e5efc Array[datetime] and Array[timedelta] rejected arrays of units other than the default
C06 1f1ae3c subscripting an alias Array[3] with a dtype dropped the shape
C02 9e123ac TFTensor[dtype, TensorShape] raised
C16 147a0a0 the value of ASTA_TYPECHECK at the first decoration was stored in the configuration and decided for all later ones
C17 fed9708 with raise-errors=no a value of the wrong container type raised AttributeError or TypeError after the failure was printed
C17 7666ecb with raise-errors=no the first member of a union was always taken and failures were printed for members that do not matter
C23 0a19bae with raise-errors=no an annotation with an unset dimension was checked anyway and crashed
C12 1cdb2b1 dims.K - 5 equal to -1 was treated as the wildcard
C18 8d7df3e setup.cfg and pyproject.toml sections were found but not read
C19 a2c26a1 an annotation with a plain subclass of dict was taken for a TypedDict and raised
C19 50163a5 Any is a class on Python 3.11 and later: every value was rejected
C04 f71bb1f Array[float, (1, "a")] was accepted: dimensions of a tuple after a dtype were not verified
C07 8a03a04 a boolean attribute was accepted for a symbolic value
C10 337ad58 a method called with its reference as keyword argument raised
C19 50400da values annotated with None were not checked
C15 9736465 a member of a union was taken although it contradicts the symbols known so far, and the call failed in spite of a later member that matches
C15 818e872 unions written X | Y were not checked at all
C19 54a5ee1 an array given for a Literal raised ValueError (also with raise-errors=no), and Literal[True] accepted 1
C19 938f456 annotations with subclasses of float and complex were never enforced
C19 03ac04c annotations with protocols that are not runtime protocols rejected every value, and those with data members raised
C19 538f67c annotations with subclasses of tuple accepted any tuple
C21 f9ea9be the annotated methods of nested classes were not decorated unless the nested class had annotated attributes
C21 dc1ade0 static and class methods decorated or defined elsewhere were decorated again, and decorated ones then failed on every call
C21 7a31054 a decorated named tuple could not be constructed
C22 2c06150 a decorated function with the class of a missing library raised KeyError instead of ImportError
C14 5dfd860 with check-all-sequence-elements=no a Sequence that cannot be sliced (a deque) was rejected with an internal error
C14 119d158 a key that a TypedDict inherits from a base with another total was wrongly required or not, and values of Required/NotRequired keys were not checked
C17 895fe8b the check of a union switched raise-errors of the shared configuration on: with raise-errors=no a mismatch in another thread was raised, and overlapping checks left it on
C23 85f9a0b the message about a tuple of the wrong length gave the expected length for the actual one and the other way round
C10 ceac48f a parameter without an annotation after an annotated self raised KeyError and not TypeError
C07 6413002 an attribute that is an array raised ValueError in place of a verdict
"""

fixed = []
for line in FIXED.strip().splitlines():
    pid, commit, what = line.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (pid, commit, what))
with open("/verif/known-findings.json", "w") as f:
    json.dump({"findings": [], "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(fixed))
