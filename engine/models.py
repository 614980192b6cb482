"""Stand-ins for arrays and tensors whose dimensions are solver terms.

A model object is a genuine instance of the library's class (``isinstance``
is decided by the real class), but its ``shape`` and ``dtype`` are supplied by
us, so no buffer is ever allocated.  In concrete replays real arrays and real
TensorFlow tensors are used instead.
"""
import sys
import types

import numpy as np

from engine.core import SymInt


class SymNd(np.ndarray):
    _engine_real_type_ = np.ndarray

    def __new__(cls, shape, dtype, attrs=None):
        self = np.ndarray.__new__(cls, (1,))
        self._sym_shape = tuple(shape)
        self._sym_dtype = np.dtype(dtype)
        self.__dict__.update(attrs or {})
        return self

    def __array_finalize__(self, obj):
        self._sym_shape = getattr(obj, "_sym_shape", ())
        self._sym_dtype = getattr(obj, "_sym_dtype", None)

    @property
    def shape(self):
        return self._sym_shape

    @property
    def dtype(self):
        return self._sym_dtype

    @property
    def ndim(self):
        return len(self._sym_shape)

    @property
    def size(self):
        n = 1
        for d in self._sym_shape:
            n = n * d
        return n

    @property
    def itemsize(self):
        return self._sym_dtype.itemsize

    @property
    def nbytes(self):
        return self.size * self._sym_dtype.itemsize

    def __len__(self):
        if not self._sym_shape:
            raise TypeError("len() of unsized object")
        d = self._sym_shape[0]
        return d.conc() if type(d) is SymInt else d

    def __repr__(self):
        return "array(shape=%r, dtype=%s)" % (self._sym_shape, self._sym_dtype)

    __str__ = __repr__


class TaggedNd(np.ndarray):
    """A user's array class with attributes of its own."""


def real_array(shape, dtype, attrs=None):
    if attrs is not None:
        arr = np.broadcast_to(np.zeros((), dtype=dtype), tuple(int(d) for d in shape)).view(TaggedNd)
        arr.__dict__.update(attrs)
        return arr
    return np.broadcast_to(np.zeros((), dtype=dtype), tuple(int(d) for d in shape))


# -- torch --------------------------------------------------------------------


def make_torch():
    """A minimal torch: exactly the names asta consults, with torch's
    documented semantics (``Size`` is a tuple subclass, ``dtype`` objects are
    singletons).  Used in symbolic runs and in replays: torch itself is not
    installed here."""
    torch = types.ModuleType("torch")

    class Size(tuple):
        def __repr__(self):
            return "torch.Size([%s])" % ", ".join(str(e) for e in self)

        def __getitem__(self, i):
            r = tuple.__getitem__(self, i)
            return Size(r) if isinstance(i, slice) else r

        def __add__(self, other):
            return Size(tuple(self) + tuple(other))

        def numel(self):
            n = 1
            for d in self:
                n = n * d
            return n

    Size.__module__ = "torch"
    Size.__qualname__ = "Size"

    class dtype:
        def __init__(self, name):
            self._name = name

        def __repr__(self):
            return "torch." + self._name

    dtype.__module__ = "torch"
    dtype.__qualname__ = "dtype"

    made = []

    class Tensor:
        def __init__(self, shape, dt, device="cpu", attrs=None):
            self.__dict__.update(attrs or {})
            self._shape = Size(shape)
            self._dtype = dt
            self._device = device
            made.append(None)
            self._hash = len(made)

        def __hash__(self):  # by identity; not the address, so runs repeat
            return self._hash

        @property
        def shape(self):
            return self._shape

        def size(self):
            return self._shape

        @property
        def dtype(self):
            return self._dtype

        @property
        def ndim(self):
            return len(self._shape)

        def dim(self):
            return len(self._shape)

        @property
        def device(self):
            return self._device

    Tensor.__module__ = "torch"
    Tensor.__qualname__ = "Tensor"

    torch.Size, torch.dtype, torch.Tensor = Size, dtype, Tensor
    for name in ("int8", "int16", "int32", "int64", "uint8", "float16",
                 "float32", "float64", "bool", "complex64", "complex128", "bfloat16"):
        setattr(torch, name, dtype(name))
    torch.int, torch.long, torch.float, torch.double = (
        torch.int32, torch.int64, torch.float32, torch.float64,
    )
    return torch


# -- tensorflow ---------------------------------------------------------------

_TF = {}


def tf_module():
    if "tf" not in _TF:
        saved = sys.modules.pop("tensorflow", None)
        if saved is None:
            import tensorflow as tf
        else:
            sys.modules["tensorflow"] = tf = saved
        _TF["tf"] = tf
    return _TF["tf"]


def tf_classes():
    if "ST" not in _TF:
        tf = tf_module()

        class SymTensorShape(tf.TensorShape):
            _engine_real_type_ = tf.TensorShape
            __slots__ = ()

            def __init__(self, dims):
                self._dims = tuple(dims)

            def __eq__(self, other):
                from engine import runtime

                if isinstance(other, tf.TensorShape):
                    return runtime.eq(tuple(self._dims), tuple(other._dims))
                if isinstance(other, (tuple, list)):
                    return runtime.eq(tuple(self._dims), tuple(other))
                return NotImplemented

            def __ne__(self, other):
                from engine.core import negate

                r = self.__eq__(other)
                return r if r is NotImplemented else negate(r)

            def __hash__(self):
                return hash(self._dims)

        class SymTensor(tf.Tensor):
            _engine_real_type_ = tf.Tensor

            def __init__(self):
                pass

            @property
            def shape(self):
                return self._sym_shape

            def get_shape(self):
                return self._sym_shape

            @property
            def ndim(self):
                return len(self._sym_shape._dims)

            @property
            def dtype(self):
                return self._sym_dtype

            def __repr__(self):
                return "tensor"

            __str__ = __repr__

        _TF["ST"] = SymTensor
        _TF["SS"] = SymTensorShape
    return _TF["ST"], _TF["SS"]


def sym_tf_shape(dims):
    return tf_classes()[1](dims)


def sym_tensor(dims, dtype, attrs=None):
    ST, SS = tf_classes()
    t = ST.__new__(ST)
    t._sym_shape = SS(dims)
    t._sym_dtype = dtype
    for k, v in (attrs or {}).items():
        setattr(t, k, v)
    return t


def real_tensor(dims, dtype, attrs=None):
    tf = tf_module()
    dims = [int(d) for d in dims]
    t = tf.zeros(dims, dtype)
    for k, v in (attrs or {}).items():
        setattr(t, k, v)
    return t
