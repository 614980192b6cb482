"""The environment a scenario is written against.

A scenario is an ordinary function ``body(env)`` that creates bounded inputs,
drives the public API of the package and states requirements.  The very same
body runs

* symbolically (``SymEnv``; the inputs are solver terms),
* concretely on the untouched source (``ConcreteEnv``; replay/validation).
"""
import io
import os
import shutil
import sys
import tempfile
import threading

from engine import core, instrument, models
from engine.core import SymBool, SymInt, mkbool, mkint, z3


# The default bound of a size, and the one for TensorFlow (whose real tensors
# take memory).
SIZES = 4000
TF_SIZES = 40


class Outcome:
    """What a call did: returned ``value`` or raised ``error``."""

    def __init__(self, value=None, error=None):
        self.value = value
        self.error = error

    @property
    def returned(self):
        return self.error is None

    def raised(self, *types):
        return self.error is not None and isinstance(self.error, types or Exception)

    @property
    def kind(self):
        return "ret" if self.error is None else type(self.error).__name__


class Scenario:
    def __init__(self, name, body, desc="", tf=False, fallback=None, budget=None,
                 witness=(), str_mode="token", hash_mode="structural"):
        self.name = name
        self.body = body
        self.desc = desc
        self.tf = tf
        self.fallback = fallback  # max number of values per int in fallback
        self.budget = budget
        self.witness = tuple(witness)  # labels that must be reached by some path
        self.str_mode = str_mode
        self.hash_mode = hash_mode


_scratch = None
base = None  # where the scratch directories are made (removed by the runner)


def scratch():
    """A private directory of this process (removed by the runner)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="verif-asta-", dir=base))
    return _scratch[1]


def drop_scratch():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        os.chdir("/")
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None


def in_package(code):
    """A function of the package, not a lambda or comprehension."""
    return code.co_filename.startswith(instrument.REPO + "/asta/") and code.co_name[0] != "<"


class Handoff:
    """Runs ``fn`` in a thread, with a pause at its function ``pause``."""

    def __init__(self, fn, pause):
        self.fn, self.pause = fn, pause
        self.thread = None
        self.paused = self.ended = False
        self.error = None
        self.mine, self.yours = threading.Semaphore(0), threading.Semaphore(0)
        self.stop = False

    def _main(self):
        n = [0]

        def switch(frame, event, arg):
            if event == "call" and in_package(frame.f_code):
                n[0] += 1
                if n[0] == self.pause + 1:
                    self.paused = True
                    self.yours.release()
                    self.mine.acquire()
            if self.stop:
                sys.setprofile(None)
                raise SystemExit

        try:
            sys.setprofile(switch)
            self.fn()
        except BaseException as err:  # control flow of the engine among them
            self.error = err
        finally:
            sys.setprofile(None)
            self.ended = True
            self.yours.release()

    def resume(self):
        if self.ended:
            return
        if self.thread is None:
            self.thread = threading.Thread(target=self._main, daemon=True)
            self.thread.start()
        else:
            self.mine.release()
        last = None
        while not self.yours.acquire(timeout=2):
            # Blocked by a lock which the interrupted call holds: there is no
            # such schedule.
            top = sys._current_frames().get(self.thread.ident)
            now = top and (id(top), top.f_lasti)
            if now == last and "z3" not in top.f_code.co_filename:
                self.stop = True
                raise core.Infeasible
            last = now
        if self.error is not None:
            raise self.error

    def finish(self, stop):
        """Let it end; if an exception is on its way, without any effects."""
        self.stop = self.stop or stop
        if self.stop and self.thread is None:
            return
        try:
            while not self.ended:
                self.resume()
        except BaseException:
            if not self.stop:
                raise
        finally:
            if self.thread is not None:
                self.thread.join()


class Env:
    symbolic = False
    mode = "plain"

    def __init__(self):
        self.requires = []  # (label, condition)
        self.observed = []  # (label, value)
        self.witnessed = []
        self.presence = {}
        self._out = io.StringIO()
        self._n = 0
        self.torch = None
        self.tf = None

    # -- loading -------------------------------------------------------------
    def load(self, config=None, environ=None, tf=False, torch=False, files=None,
             workdir="."):
        """A fresh import of asta in a scratch directory.

        config: {key: str} written to ``.astarc``; files: {name: (present, text)}.
        """
        self._prepare(config, environ, tf, torch, files)
        os.makedirs(workdir, exist_ok=True)
        os.chdir(workdir)
        return instrument.load(self.mode)

    def _prepare(self, config, environ, tf, torch, files):
        root = scratch()
        home = os.path.join(root, "home")
        cwd = os.path.join(root, "cwd")
        for d in (home, cwd):
            if os.path.isdir(d):
                for name in os.listdir(d):
                    p = os.path.join(d, name)
                    shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
            else:
                os.makedirs(d)
        os.chdir(cwd)
        os.environ["HOME"] = home
        for k in ("ASTA_TYPECHECK", "ASTARC"):
            os.environ.pop(k, None)
        for k, v in (environ or {}).items():
            os.environ[k] = v
        if config is not None:
            text = "[MASTER]\n" + "".join("%s=%s\n" % kv for kv in config.items())
            self._write(os.path.join(cwd, ".astarc"), True, text)
        for name, (present, text) in (files or {}).items():
            base = home if name.startswith("~/") else cwd
            path = os.path.join(base, name[2:] if name.startswith("~/") else name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            self._write(path, present, text)
        if torch:
            self.torch = models.make_torch()
            sys.modules["torch"] = self.torch
        else:
            sys.modules["torch"] = None
        if tf:
            self.tf = models.tf_module()
            sys.modules["tensorflow"] = self.tf
        else:
            sys.modules["tensorflow"] = None

    def _write(self, path, present, text):
        if present:
            with open(path, "w") as f:
                f.write(text)

    # -- running -------------------------------------------------------------
    def attempt(self, fn, /, *args, **kw):
        self._n += 1
        try:
            out = Outcome(value=fn(*args, **kw))
        except Exception as err:  # Control is a BaseException
            out = Outcome(error=err)
        self.observed.append(("attempt%d" % self._n, out.kind))
        return out

    def overlapped(self, at, pause, other, fn, *args, **kw):
        """``attempt`` overlapped by another thread: when the package's function
        number ``at`` is entered, the other thread runs ``other`` up to its
        function number ``pause``, then this call ends, then ``other`` does.
        Only one of the threads is ever running."""
        n = [0]
        outer = sys.getprofile()
        thread = Handoff(other, pause)

        def switch(frame, event, arg):
            if event == "call" and in_package(frame.f_code):
                n[0] += 1
                if n[0] == at + 1:
                    sys.setprofile(None)
                    thread.resume()

        out = None
        sys.setprofile(switch)
        try:
            out = self.attempt(fn, *args, **kw)
        finally:
            sys.setprofile(outer)
            thread.finish(out is None)
        self.observed.append(("switched", (n[0] > at, thread.paused)))
        return out

    def check(self, x, t):
        """``isinstance(x, t)`` as a property observes it."""
        out = self.attempt(isinstance, x, t)
        return out

    def require(self, label, cond):
        self.requires.append((label, cond))

    def fail(self, label):
        self.require(label, False)

    def observe(self, label, value):
        self.observed.append((label, value))

    def witness(self, label):
        self.witnessed.append(label)

    def output(self):
        return self._out.getvalue()

    def run(self, body):
        saved = sys.stdout
        sys.stdout = self._out
        try:
            body(self)
        except Exception as err:
            import traceback

            self.crash = traceback.format_exc()
            self.require("no unexpected %s: %s" % (type(err).__name__, str(err)[:200]), False)
        finally:
            sys.stdout = saved


class ConcreteEnv(Env):
    def __init__(self, values):
        super().__init__()
        self.values = values

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo, hi, few=None):
        return self._get(name, lo)

    def bool(self, name):
        return bool(self._get(name, False))

    def pick(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def strsym(self, name, options):
        return list(options)[self._get(name, 0)]

    def assume(self, cond):
        if not cond:
            raise core.Infeasible()

    def known(self, cond):
        return bool(cond)

    def array(self, dims, dtype="float64", attrs=None):
        return models.real_array(dims, dtype, attrs)

    def tensor(self, dims, dtype, attrs=None):
        return models.real_tensor(dims, dtype, attrs)

    def tf_shape(self, dims):
        return models.tf_module().TensorShape([int(d) for d in dims])

    def ttensor(self, dims, dtype, attrs=None):
        return self.torch.Tensor(dims, dtype, attrs=attrs)


class SymEnv(Env):
    symbolic = True
    mode = "sym"

    def _input(self, name, term, kind):
        assert name not in core.ctx().inputs, "duplicate input " + name
        core.ctx().inputs[name] = (term, kind)

    def int(self, name, lo, hi, few=None):
        if hi == SIZES and self.tf is not None:
            hi = TF_SIZES
        t = z3.Int(name)
        c = core.ctx()
        c.assume(z3.And(t >= lo, t <= hi))
        self._input(name, t, "int")
        return mkint(t) if lo != hi else lo

    def bool(self, name):
        t = z3.Bool(name)
        self._input(name, t, "bool")
        return mkbool(t)

    def pick(self, name, options):
        options = list(options)
        t = z3.Int(name)
        c = core.ctx()
        c.assume(z3.And(t >= 0, t < len(options)))
        self._input(name, t, "int")
        return options[c.pick(t)]

    def strsym(self, name, options):
        options = list(options)
        t = z3.Int(name)
        c = core.ctx()
        c.assume(z3.And(t >= 0, t < len(options)))
        self._input(name, t, "int")
        return c.choice_token(t, options)

    def assume(self, cond):
        c = core.ctx()
        if type(cond) is SymBool:
            c.assume(cond.z)
            if not c.check():
                raise core.Infeasible()
        elif not cond:
            raise core.Infeasible()

    def array(self, dims, dtype="float64", attrs=None):
        if any(type(d) is SymInt for d in dims):
            return models.SymNd(dims, dtype, attrs)
        return models.real_array(dims, dtype, attrs)

    def tensor(self, dims, dtype, attrs=None):
        if any(type(d) is SymInt for d in dims) or attrs:
            return models.sym_tensor(dims, dtype, attrs)
        return models.real_tensor(dims, dtype)

    def tf_shape(self, dims):
        if any(type(d) is SymInt for d in dims):
            return models.sym_tf_shape(dims)
        return models.tf_module().TensorShape([int(d) for d in dims])

    def ttensor(self, dims, dtype, attrs=None):
        return self.torch.Tensor(dims, dtype, attrs=attrs)

    def _write(self, path, present, text):
        if type(present) is SymBool:
            self.presence[os.path.realpath(path)] = present
            core.ctx().presence = self.presence
            present = True
        super()._write(path, present, text)


class EnumEnv(SymEnv):
    """Fallback when the symbolic encoding of a (changed) source is not
    faithful: inputs are concretised by the solver, one value per path, over a
    reduced domain, and the untouched source runs."""

    mode = "plain"

    def __init__(self, width):
        super().__init__()
        self.width = width

    def int(self, name, lo, hi, few=None):
        order = few or ([1, -1, 0, 2, -2, 3] if lo < 0 else [1, 0, 2, 3, 4])
        vals = [v for v in order if lo <= v <= hi] or [lo, hi]
        vals = vals[: self.width]
        t = z3.Int(name)
        c = core.ctx()
        c.assume(z3.Or(*[t == v for v in vals]))
        self._input(name, t, "int")
        return c.pick(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._input(name, t, "bool")
        return core.ctx().branch(t)

    def strsym(self, name, options):
        return self.pick(name, options)

    def _write(self, path, present, text):
        if bool(present):
            with open(path, "w") as f:
                f.write(text)
