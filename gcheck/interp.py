"""Abstract interpreter for the Python subset used by the analysed package.

Modules are loaded by parsing their source; nothing of the package is imported or run.
Branches on symbolic conditions partition the trace: `explore` re-executes the analysed
entry point once per feasible decision list.
"""
import ast
import builtins
import threading
import time
import os
from fractions import Fraction

from . import terms as T
from . import tensor as X
from .terms import Term, ZERO, ONE
from .tensor import Tensor, Num, Incomplete, LibError, num_term, num_kind, mknum, is_num, norm


# ------------------------------------------------------------------ values
class SymStr:
    """A text whose value is not known."""
    __slots__ = ("name", "among")

    def __init__(self, name, among=None):
        self.name, self.among = name, among

    def __repr__(self):
        return "<text %s>" % self.name

    def __eq__(self, o):
        return isinstance(o, SymStr) and o.name == self.name

    def __hash__(self):
        return hash(("SymStr", self.name))


class PyList:
    maxlen = None       # of a deque
    deque = False

    def __init__(self, items=(), origin="fresh"):
        self.items = list(items)
        self.origin = origin

    def __repr__(self):
        return "list%r" % (self.items,)


class PyDict:
    factory = None      # of a defaultdict or Counter
    counter = False

    def __init__(self, d=None, origin="fresh"):
        self.d = dict(d or {})
        self.origin = origin
        self.sym = []            # entries stored under symbolic keys: (key term/SymStr, value)

    def __repr__(self):
        return "dict%r" % (self.d,)


class PySet:
    __slots__ = ("items", "origin")

    def __init__(self, items=(), origin="fresh"):
        self.items = []
        for x in items:
            if x not in self.items:
                self.items.append(x)
        self.origin = origin


class SymRange:
    """range(lo, lo + n) with a symbolic length."""

    def __init__(self, lo, n, step=ONE, wrap=None):
        self.lo, self.n, self.step = lo, n, step
        self.wrap = wrap


class TypeV:
    def __init__(self, name, make=None, pred=None):
        self.name, self.make, self.pred = name, make, pred

    def __repr__(self):
        return "<type %s>" % self.name


class Builtin:
    __slots__ = ("name", "fn", "raw", "attrs")

    def __init__(self, name, fn, raw=False):
        self.name, self.fn, self.raw = name, fn, raw
        self.attrs = {}

    def __repr__(self):
        return "<builtin %s>" % self.name


class Func:
    def __init__(self, node, module, closure, name, qual, defaults, kwdefaults, cls=None, is_lambda=False):
        self.node, self.module, self.closure, self.name, self.qual = node, module, closure, name, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.is_lambda = is_lambda
        self.attrs = {}
        self.info = _fninfo(node)

    def __repr__(self):
        return "<function %s>" % self.qual


class BoundMethod:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return "<method %r of %r>" % (self.func, self.self)


def is_abstract(v):
    for f in (v, getattr(v, "f", None), getattr(v, "fget", None)):
        if isinstance(f, Func) and "*abstract" in f.attrs:
            return True
    return False


class Class:
    abstract = None

    def __init__(self, name, bases, ns, module, qual):
        self.name, self.bases, self.ns, self.module, self.qual = name, bases, ns, module, qual
        self.mro = _c3(self)

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Class) and name in c.ns:
                return c.ns[name], c
        return None, None

    def is_sub(self, other):
        return any(c is other for c in self.mro)

    def __repr__(self):
        return "<class %s>" % self.qual


def _c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(any(x is h for x in t[1:]) for t in seqs):
                    break
            else:
                raise PyRaise(exc("TypeError", "inconsistent method resolution order"))
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out
    return [cls] + merge([list(b.mro) if isinstance(b, Class) else [b] for b in cls.bases] + [list(cls.bases)])


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.params = None
        self.buffers = None
        self.modules = None
        self.native = {}

    def __repr__(self):
        return "<%s object>" % self.cls.name


class NTup(tuple):
    """Value of a named tuple class."""
    cls = None

    @staticmethod
    def of(cls, items):
        r = NTup(items)
        r.cls = cls
        return r


class EStr(str):
    """Member of an enumeration of texts."""
    cls = None


class EInt(int):
    """Member of an enumeration of integers."""
    cls = None


class StopGen(Exception):
    """The end of an iterator, with its return value."""

    def __init__(self, v=None):
        self.v = v


class GenKill(BaseException):
    pass


class Gen:
    """A generator object: its body runs in a thread of its own, one of the two running at any time."""

    def __init__(self, it, run, frame, env):
        self.it, self.run, self.frame, self.env = it, run, frame, env
        self.state = "new"
        self.mine, self.theirs = threading.Semaphore(0), threading.Semaphore(0)
        self.sent = self.out = self.err = None
        self.killed = False

    def __repr__(self):
        return "<generator %s>" % self.frame[2]

    def _body(self):
        self.mine.acquire()
        try:
            if self.killed:
                return
            if isinstance(self.sent, BaseException):
                raise self.sent
            self.err = StopGen(self.run())
        except GenKill:
            pass
        except PyRaise as e:
            if e.val.name == "StopIteration":
                e = PyRaise(exc("RuntimeError", "generator raised StopIteration"), e.where, e.stack)
            self.err = e
        except BaseException as e:
            self.err = e
        finally:
            self.state = "done"
            self.theirs.release()

    def resume(self, sent=None):
        """The next value, or StopGen; sent: the value of the yield expression, or an exception to raise there."""
        if self.state == "running":
            self.it.raise_("ValueError", "generator already executing")
        if self.state == "done":
            if isinstance(sent, BaseException):
                raise sent
            raise StopGen()
        if self.state == "new":
            old = threading.stack_size(256 << 20)
            try:
                th = threading.Thread(target=self._body, daemon=True)
                th.start()
            finally:
                threading.stack_size(old)
            self.it.gens.append(self)
        self.state = "running"
        self.sent, self.out, self.err = sent, None, None
        n, m = len(self.it.frames), len(self.it.env_stack)
        self.it.frames.append(self.frame)
        self.it.env_stack.append(self.env)
        self.mine.release()
        self.theirs.acquire()
        del self.it.frames[n:]
        del self.it.env_stack[m:]
        if self.err is not None:
            raise self.err
        return self.out

    def put(self, v):
        """Inside the body: hand out a value and wait."""
        self.out = v
        self.state = "suspended"
        self.theirs.release()
        self.mine.acquire()
        if self.killed:
            raise GenKill()
        if isinstance(self.sent, BaseException):
            raise self.sent
        return self.sent

    def kill(self):
        if self.state == "suspended":
            self.killed = True
            self.mine.release()
            self.theirs.acquire()
        self.state = "done"


class SuperV:
    def __init__(self, start, obj, cls):
        self.start, self.obj, self.cls = start, obj, cls


class PropertyV:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMethodV:
    def __init__(self, f):
        self.f = f


class ModuleV:
    def __init__(self, name, path, is_pkg, tree):
        self.name, self.path, self.is_pkg, self.tree = name, path, is_pkg, tree
        self.ns = {}
        self.done = False

    def __repr__(self):
        return "<module %s>" % self.name


class Lib:
    """A namespace of an external library."""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<library %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, Lib) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Native:
    """A library object with native methods."""

    def __init__(self, kind, **attrs):
        self.kind = kind
        self.attrs = attrs

    def __repr__(self):
        return "<%s>" % self.kind


# ------------------------------------------------------------------ exceptions of the analysed program
import builtins as _bi

_EXC = {n: c for n, c in vars(_bi).items() if isinstance(c, type) and issubclass(c, BaseException)}


class ExcClass:
    def __init__(self, name):
        self.name = name
        self.mro = [self]

    def __repr__(self):
        return "<class %s>" % self.name


_exc_classes = {n: ExcClass(n) for n in _EXC}


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args
        self.attrs = {}
        self.lib = False

    @property
    def name(self):
        return self.cls.name

    def __repr__(self):
        return "%s(%s)" % (self.cls.name, ", ".join(map(repr, self.args)))


def exc(name, msg=""):
    return ExcVal(_exc_classes[name], (msg,))


class PyRaise(Exception):
    def __init__(self, val, where=None, stack=None):
        Exception.__init__(self, repr(val))
        self.val = val
        self.where = where
        self.stack = stack


def exc_matches(val, cls):
    if isinstance(cls, tuple):
        return any(exc_matches(val, c) for c in cls)
    if isinstance(cls, ExcClass):
        c = val.cls
        if isinstance(c, Class):
            return any(isinstance(b, ExcClass) and issubclass(_EXC[b.name], _EXC[cls.name]) for b in c.mro)
        return issubclass(_EXC[c.name], _EXC[cls.name])
    if isinstance(cls, Class):
        return isinstance(val.cls, Class) and val.cls.is_sub(cls)
    raise Incomplete("except clause with %r" % (cls,))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Restart(Exception):
    """The havoc set of a loop grew; the partition is executed again."""


class Infeasible(Exception):
    """The partition contradicts what is known about its conditions."""


# ------------------------------------------------------------------ static facts about functions
class _Info:
    pass


_finfo = {}


def _fninfo(node):
    r = _finfo.get(id(node))
    if r is not None and r.node is node:
        return r
    r = _Info()
    r.node = node
    r.locals = set()
    r.globals = set()
    r.nonlocals = set()
    r.gen = False
    a = node.args
    r.params = [x.arg for x in a.posonlyargs + a.args]
    r.posonly = len(a.posonlyargs)
    r.kwonly = [x.arg for x in a.kwonlyargs]
    r.vararg = a.vararg.arg if a.vararg else None
    r.kwarg = a.kwarg.arg if a.kwarg else None
    r.locals.update(r.params, r.kwonly)
    if r.vararg:
        r.locals.add(r.vararg)
    if r.kwarg:
        r.locals.add(r.kwarg)

    def tgt(n):
        if isinstance(n, ast.Name):
            r.locals.add(n.id)
        elif isinstance(n, (ast.Tuple, ast.List)):
            for e in n.elts:
                tgt(e)
        elif isinstance(n, ast.Starred):
            tgt(n.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            r.locals.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    tgt(x.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            r.gen = True
        if isinstance(n, ast.Global):
            r.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            r.nonlocals.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            r.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                r.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            r.locals.add(n.name)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    r.locals -= r.globals
    r.locals -= r.nonlocals
    _finfo[id(node)] = r
    return r


class Env:
    __slots__ = ("vars", "parent", "func", "module", "locals", "globals", "cls_cell", "first", "is_class", "yields")

    def __init__(self, module, parent=None, func=None, locals_=None):
        self.vars = {}
        self.parent = parent
        self.func = func
        self.module = module
        self.locals = locals_
        self.globals = ()
        self.cls_cell = None
        self.first = None
        self.is_class = False
        self.yields = None


_ast_cache = {}


def parse(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    r = _ast_cache.get(key)
    if r is None:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        r = _ast_cache[key] = ast.parse(src, path)
    return r


_UNSET = object()


# ------------------------------------------------------------------ the interpreter
class Interp:
    MAX_STEPS = 3_000_000

    def __init__(self, root="/repo", stubs=None):
        from . import lib
        self.root = root
        self.stubs = stubs or {}
        self.mods = {}
        self.lib = lib
        self.frames = []
        self.steps = 0
        self.calls = set()
        self.builtins = lib.make_builtins(self)
        self.ctx = X.ctx()
        self.ctx.node = self.where
        self.ctx.interp = self
        self.prelude = None
        self.loop_no = 0
        self.gens = []
        lib.attach(self)

    # -------------------------------------------------------------- position
    def close(self):
        for g in self.gens:
            g.kill()
        del self.gens[:]

    def where(self):
        for f in reversed(self.frames):
            if not f[0].startswith("<"):
                return (f[0], f[1], f[2])
        return ("?", 0, "?")

    def stack(self):
        return [(f[0], f[1], f[2]) for f in self.frames if not f[0].startswith("<")]

    def raise_(self, name, msg="", lib=False):
        v = exc(name, msg)
        v.lib = lib
        raise PyRaise(v, self.where(), self.stack())

    # -------------------------------------------------------------- modules
    def find_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p) and name.split(".")[0] == "gconv":
            return None, True      # namespace package
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            parent = name.rsplit(".", 1)[0]
            pm = self.load(parent)
            if name in self.mods:
                return self.mods[name]
        else:
            pm = None
        path, pkg = self.find_module(name)
        if path is None and not pkg:
            self.raise_("ModuleNotFoundError", "No module named %r" % name)
        tree = parse(path) if path else None
        m = ModuleV(name, path, pkg, tree)
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        self.mods[name] = m
        if tree is not None:
            env = Env(m)
            env.vars = m.ns
            self.frames.append([os.path.relpath(path, self.root), 0, "<module>"])
            try:
                self.exec_block(tree.body, env)
            except PyRaise:
                del self.mods[name]
                raise
            finally:
                self.frames.pop()
        m.done = True
        if pm is not None:
            pm.ns[name.rsplit(".", 1)[1]] = m
        return m

    def load_prelude(self, name, src):
        tree = src if isinstance(src, ast.AST) else ast.parse(src, name)
        m = ModuleV(name, name, False, tree)
        m.ns["__name__"] = name
        env = Env(m)
        env.vars = m.ns
        self.frames.append(["<%s>" % name, 0, "<module>"])
        try:
            self.exec_block(tree.body, env)
        finally:
            self.frames.pop()
        m.done = True
        return m

    def is_own(self, name):
        top = name.split(".")[0]
        p, pkg = self.find_module(top)
        return p is not None or pkg

    def import_name(self, name):
        """sys.modules[name] after importing it."""
        if self.is_own(name):
            return self.load(name)
        return self.lib.import_external(self, name)

    def get(self, dotted):
        """Value of 'package.module:attr.attr'."""
        mod, _, attrs = dotted.partition(":")
        v = self.load(mod)
        if attrs:
            for a in attrs.split("."):
                v = self.getattr(v, a)
        return v

    # -------------------------------------------------------------- decisions
    def decide(self, cond):
        return self.ctx.decider(cond)

    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, Num):
            t = norm(v.term)
            if t.const is not None:
                return t.const != 0
            if v.kind == "bool":
                return self.decide(t)
            return self.decide(T.lnot(T.eq(t, ZERO)))
        if isinstance(v, Tensor):
            n = X.numel(v.shape)
            if norm(n).const is None or norm(n).const != 1:
                if norm(n).const is None:
                    raise Incomplete("truth value of a tensor of shape %s" % X.show_shape(v.shape))
                self.raise_("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous", lib=True)
            t = norm(X.scalar_of(v))
            if t.const is not None:
                return t.const != 0
            if v.dtype == "bool":
                return self.decide(t)
            return self.decide(T.lnot(T.eq(t, ZERO)))
        if isinstance(v, PyList):
            return bool(v.items)
        if isinstance(v, PyDict):
            return bool(v.d) or bool(v.sym)
        if isinstance(v, PySet):
            return bool(v.items)
        if isinstance(v, SymRange):
            return self.decide(T.lnot(T.eq(v.n, ZERO)))
        if isinstance(v, range):
            return len(v) > 0
        if isinstance(v, SymStr):
            return self.decide(T.lnot(T.streq(v.name, "")))
        if isinstance(v, Instance):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, v), []))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(BoundMethod(f, v), []))
            return True
        return True

    # -------------------------------------------------------------- names
    def lookup(self, name, env):
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or not e.is_class):
                return e.vars[name]
            if first or not e.is_class:
                if e.locals is not None and name in e.locals and name not in e.globals:
                    if first:
                        self.raise_("UnboundLocalError",
                                    "cannot access local variable %r where it is not associated with a value" % name)
                    self.raise_("NameError", "cannot access free variable %r" % name)
            if e.locals is not None and name in e.globals:
                break
            first = False
            e = e.parent
        ns = env.module.ns
        if name in ns:
            return ns[name]
        if name == "__class__":
            c = self.class_cell(env)
            if c is not None:
                return c
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            raise Incomplete("builtin %s" % name)
        self.raise_("NameError", "name %r is not defined" % name)

    def class_cell(self, env):
        e = env
        while e is not None:
            if e.func is not None and e.func.cls is not None:
                return e.func.cls
            e = e.parent
        return None

    def assign_name(self, name, v, env):
        if name in env.globals:
            env.module.ns[name] = v
            return
        if env.func is not None and name in env.func.info.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and not e.is_class:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # -------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        if self.frames:
            self.frames[-1][1] = getattr(s, "lineno", 0)
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Incomplete("too many steps")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Incomplete("statement %s" % type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        self.ev(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_Global(self, s, env):
        env.globals = set(env.globals) | set(s.names)

    def x_Nonlocal(self, s, env):
        pass

    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if env.func is None and not self._future(env):
            self.check_annotation(s.annotation, env)
        if env.is_class and isinstance(s.target, ast.Name):
            env.vars.setdefault("*ann", []).append((s.target.id, ast.unparse(s.annotation)))
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def x_AugAssign(self, s, env):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, env)
            self.assign_name(s.target.id, self.iop(op, cur, self.ev(s.value, env)), env)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            cur = self.getattr(o, s.target.attr)
            self.setattr(o, s.target.attr, self.iop(op, cur, self.ev(s.value, env)))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, env)
            ix = self.ev_index(s.target.slice, env)
            cur = self.getitem(o, ix)
            self.setitem(o, ix, self.iop(op, cur, self.ev(s.value, env)))
        else:
            raise Incomplete("augmented assignment target")

    def iop(self, op, cur, val):
        if isinstance(cur, Tensor):
            return self.lib.inplace_binop(self, op, cur, val)
        if isinstance(cur, PyList) and op == "Add":
            self.note_write(cur, "extending a list")
            cur.items.extend(self.iterate(val))
            return cur
        if isinstance(cur, PyDict) and op == "BitOr":
            self.note_write(cur, "updating a dict")
            for k in val.d:
                cur.d[k] = val.d[k]
            return cur
        if isinstance(cur, PySet) and op == "BitOr":
            self.note_write(cur, "updating a set")
            for k in self.iterate(val):
                if k not in cur.items:
                    cur.items.append(k)
            return cur
        return self.binop(op, cur, val)

    def note_write(self, obj, what):
        if obj.origin != "fresh":
            self.ctx.event("write", "%s modifies %s" % (what, X.describe_origin(obj.origin)), origin=obj.origin)

    def x_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 2000:
                raise Incomplete("while loop without a visible bound")
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, Native) and it.kind in ("pbar",):
            it = it.attrs["iterable"]
        wrap = None
        if isinstance(it, tuple) and len(it) == 2 and isinstance(it[0], str) and it[0] == "*enum":
            pass
        if isinstance(it, SymRange):
            return self.sym_loop(s, it, env)
        for v in self.lazily(it):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(s.orelse, env)

    def sym_loop(self, s, rng, env):
        """One symbolic iteration: everything the body changes is unknown on entry (a fresh leaf), and
        what the body makes of it is recorded as the transfer of the loop."""
        self.loop_no += 1
        key = (self.frames[-1][0], s.lineno, self.loop_no)
        hv = self.ctx_havoc.setdefault(key, {"st": set(), "names": set()})
        mark = next(self.ctx.stamp)
        pre = {}
        rec = {"key": key, "n": rng.n, "names": {}, "stores": {}, "before": {}}
        seen = {}
        for st in list(self.live_storages()):
            if st.stamp in hv["st"]:
                seen[st.stamp] = st
        leafs = {}
        for stamp, st in seen.items():
            lf = T.Leaf("carried@%s:%d#%d" % (key[0], key[1], stamp))
            rec["before"][stamp] = st.reader()
            leafs[stamp] = lf
            st.replace(lambda *i, lf=lf: T.elem(lf, *i))
        names0 = dict(env.vars)
        for nm in hv["names"]:
            v = env.vars.get(nm)
            if isinstance(v, (Num, int)) and not isinstance(v, bool):
                env.vars[nm] = Num(T.sym("carried@%s:%d:%s" % (key[0], key[1], nm), num_kind(v) == "int"), num_kind(v))
            elif isinstance(v, Tensor):
                lf = T.Leaf("carried@%s:%d:%s" % (key[0], key[1], nm))
                t = X.mk(v.shape, lambda *i, lf=lf: T.elem(lf, *i), v.dtype, v.device, v.st.grad)
                t.requires_grad = v.requires_grad
                env.vars[nm] = t
                rec["names"][nm] = {"leaf": lf, "before": v}
            else:
                raise Incomplete("loop changes %s in a way that is not summarized" % nm)
        entry = dict(env.vars)
        i = T.fresh(rng.n, "it")
        rec["iv"] = i
        v = mknum(rng.lo + i * rng.step, "int")
        self.assign(s.target, rng.wrap(v) if rng.wrap else v, env)
        vers = {st.stamp: st.ver for st in self.live_storages() if st.stamp < mark}
        evmark = len(self.ctx.events)
        objs = {id(o): (o, len(o.items)) for o in self.live_lists()}
        rec["grads_before"] = None
        try:
            self.exec_block(s.body, env)
        except _Continue:
            pass
        except _Break:
            raise Incomplete("break out of a loop of symbolic length")
        except _Return:
            raise Incomplete("return out of a loop of symbolic length")
        grew = False
        for st in self.live_storages():
            if st.stamp < mark and st.ver != vers.get(st.stamp, st.ver) and st.stamp not in hv["st"]:
                hv["st"].add(st.stamp)
                grew = True
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for nm, v0 in names0.items():
            if nm in tnames:
                continue
            v1 = env.vars.get(nm)
            if nm in hv["names"]:
                continue
            if v1 is not v0 and not _same_value(v0, v1):
                # names assigned before use in the body need no summary of their old value
                if _assigned_first(s.body, nm):
                    continue
                hv["names"].add(nm)
                grew = True
        for o, n in objs.values():
            if len(o.items) != n:
                raise Incomplete("a loop of symbolic length fills a list")
        if grew:
            raise Restart()
        for stamp, st in seen.items():
            rec["stores"][stamp] = {"leaf": leafs[stamp], "after": st.reader(), "shape": st.shape, "storage": st,
                                    "before": rec["before"][stamp]}
            lf2 = T.Leaf("after@%s:%d#%d" % (key[0], key[1], stamp))
            st.replace(lambda *i, lf2=lf2: T.elem(lf2, *i))
            rec["stores"][stamp]["final"] = lf2
        for nm in hv["names"]:
            v = env.vars.get(nm)
            if isinstance(v, Tensor):
                rec["names"].setdefault(nm, {})["after"] = v
                lf2 = T.Leaf("after@%s:%d:%s" % (key[0], key[1], nm))
                t = X.mk(v.shape, lambda *i, lf2=lf2: T.elem(lf2, *i), v.dtype, v.device, v.st.grad)
                t.requires_grad = v.requires_grad
                rec["names"][nm]["final"] = lf2
                env.vars[nm] = t
            elif isinstance(v, (Num, int)):
                env.vars[nm] = Num(T.sym("after@%s:%d:%s" % (key[0], key[1], nm), num_kind(v) == "int"), num_kind(v))
        self.ctx.loop_records.append(rec)
        self.exec_block(s.orelse, env)

    def live_storages(self):
        return [st for st in self.lib.all_storages() if st is not None]

    def live_lists(self):
        out = []
        for fr in self.env_stack:
            for v in fr.vars.values():
                if isinstance(v, PyList):
                    out.append(v)
        return out

    def x_With(self, s, env):
        mgrs = []
        for item in s.items:
            m = self.ev(item.context_expr, env)
            v = self.enter(m)
            mgrs.append(m)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env)
        try:
            self.exec_block(s.body, env)
        except PyRaise as e:
            for m in reversed(mgrs):
                if self.exit(m, e):
                    return
            raise
        except (_Return, _Break, _Continue):
            for m in reversed(mgrs):
                self.exit(m, None)
            raise
        except BaseException:
            for m in reversed(mgrs):
                if isinstance(m, Native) and m.kind == "gradmode":
                    self.exit(m, None)
            raise
        for m in reversed(mgrs):
            self.exit(m, None)

    def enter(self, m):
        if isinstance(m, Native) and m.kind == "gradmode":
            m.attrs.setdefault("saved", []).append(m.attrs.pop("before", self.ctx.grad_on))
            self.ctx.grad_on = m.attrs["on"]
            return None
        if isinstance(m, Native) and m.kind == "nullcontext":
            return m.attrs.get("value")
        if isinstance(m, Native) and m.kind in ("pbar", "suppress", "catch_warnings"):
            return m
        if isinstance(m, Instance):
            f, _ = m.cls.lookup("__enter__")
            if f is not None:
                return self.call(BoundMethod(f, m), [])
        raise Incomplete("context manager %r" % (m,))

    def exit(self, m, e):
        if isinstance(m, Native) and m.kind == "gradmode":
            self.ctx.grad_on = m.attrs["saved"].pop()
            return False
        if isinstance(m, Native) and m.kind == "suppress":
            return e is not None and exc_matches(e.val, tuple(m.attrs["classes"]))
        if isinstance(m, Instance):
            f, _ = m.cls.lookup("__exit__")
            if e is not None:
                return self.truth(self.call(BoundMethod(f, m), [e.val.cls, e.val, None]))
            self.call(BoundMethod(f, m), [None, None, None])
        return False

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, "handling", None)
            if cur:
                raise PyRaise(cur[-1], self.where(), self.stack())
            self.raise_("RuntimeError", "No active exception to reraise")
        v = self.ev(s.exc, env)
        if isinstance(v, (ExcClass, Class)):
            v = self.call(v, [])
        if isinstance(v, Instance):
            w = ExcVal(v.cls, ())
            w.attrs = v.attrs
            v = w
        if not isinstance(v, ExcVal):
            raise Incomplete("raise of %r" % (v,))
        raise PyRaise(v, self.where(), self.stack())

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or exc_matches(e.val, self.ev(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.val
                        if not hasattr(self, "handling"):
                            self.handling = []
                        self.handling.append(e.val)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                env.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            import sys
            et = sys.exc_info()[0]
            if et is None or not issubclass(et, (Incomplete, Restart, Infeasible, GenKill)):
                self.exec_block(s.finalbody, env)

    def x_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_("AssertionError", "")

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                self.note_write(o, "deleting an entry")
                if isinstance(o, PyDict):
                    k = self.dkey(k)
                    if k not in o.d:
                        if o.sym:
                            raise Incomplete("deletion from a dict with unknown keys")
                        self.raise_("KeyError", k)
                    del o.d[k]
                elif isinstance(o, PyList):
                    f = lambda x: None if x is None else self.concrete_int(x, "index of a list")
                    try:
                        del o.items[slice(f(k.start), f(k.stop), f(k.step)) if isinstance(k, slice) else f(k)]
                    except IndexError:
                        self.raise_("IndexError", "list assignment index out of range")
                elif isinstance(o, Instance) and o.cls.lookup("__delitem__")[0] is not None:
                    self.call(BoundMethod(o.cls.lookup("__delitem__")[0], o), [k])
                else:
                    raise Incomplete("del")
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Instance):
                    p, _ = o.cls.lookup(t.attr)
                    if isinstance(p, PropertyV):
                        if p.fdel is None:
                            self.raise_("AttributeError", "can't delete attribute %r" % t.attr)
                        self.call(p.fdel, [o])
                        continue
                    for d in (o.attrs, o.params or {}, o.buffers or {}, o.modules or {}):
                        if t.attr in d:
                            del d[t.attr]
                            break
                    else:
                        self.raise_("AttributeError", t.attr)
            else:
                raise Incomplete("del")

    def x_Import(self, s, env):
        for al in s.names:
            m = self.import_name(al.name)
            if al.asname:
                self.assign_name(al.asname, m, env)
            else:
                top = al.name.split(".")[0]
                self.assign_name(top, self.import_name(top) if "." in al.name else m, env)

    def x_ImportFrom(self, s, env):
        if s.module == "__future__":
            return
        if s.level:
            pkg = env.module.name if env.module.is_pkg else env.module.name.rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            base = pkg + ("." + s.module if s.module else "")
        else:
            base = s.module
        m = self.import_name(base)
        for al in s.names:
            if al.name == "*":
                if not isinstance(m, ModuleV):
                    raise Incomplete("star import from %s" % base)
                if "__all__" in m.ns:
                    for n in self.iterate(m.ns["__all__"]):
                        self.assign_name(n, self.getattr(m, n), env)
                else:
                    for n, v in list(m.ns.items()):
                        if not n.startswith("_"):
                            self.assign_name(n, v, env)
                continue
            v = self.import_from(m, base, al.name)
            self.assign_name(al.asname or al.name, v, env)

    def import_from(self, m, base, name):
        if isinstance(m, ModuleV):
            if name in m.ns:
                return m.ns[name]
            sub = base + "." + name
            if sub in self.mods:
                return self.mods[sub]
            if m.is_pkg:
                p, pkg = self.find_module(sub)
                if p is not None or pkg:
                    return self.load(sub)
            self.raise_("ImportError", "cannot import name %r from %r%s" % (
                name, base, "" if m.done else " (partially initialized module, import cycle)"))
        return self.getattr(m, name)

    def _future(self, env):
        m = env.module
        r = m.ns.get("*future*")
        if r is None:
            r = bool(m.tree) and any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and
                                     any(a.name == "annotations" for a in n.names) for n in m.tree.body)
            m.ns["*future*"] = r
        return r

    def check_annotation(self, node, env):
        """Names in an annotation are looked up when the definition is executed."""
        if node is None:
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                self.lookup(n.id, env)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                try:
                    self.getattr(self.lookup(n.value.id, env), n.attr)
                except Incomplete:
                    pass

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        if not self._future(env):
            for a in s.args.posonlyargs + s.args.args + s.args.kwonlyargs + \
                    [x for x in (s.args.vararg, s.args.kwarg) if x]:
                self.check_annotation(a.annotation, env)
            self.check_annotation(s.returns, env)
        if f.qual in self.stubs:
            env.vars[s.name] = self.stubs[f.qual](self, f) if not isinstance(self.stubs[f.qual], Builtin) \
                else self.stubs[f.qual]
            return
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, env), [f])
        self.assign_name(s.name, f, env)

    def make_func(self, s, env, name=None):
        name = name or getattr(s, "name", "<lambda>")
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        for d in defaults + list(kwd.values()):
            mark_origin(d, ("default", "of " + name))
        pre = env.module.name
        if env.is_class:
            pre = env.cls_cell
        elif env.func is not None:
            pre = env.func.qual + ".<locals>"
        f = Func(s, env.module, env, name, "%s.%s" % (pre, name), defaults, kwd)
        return f

    def x_ClassDef(self, s, env):
        bases = []
        special = mixin = None
        for b in s.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.ev(b.value, env)))
            else:
                v = self.ev(b, env)
                if isinstance(v, TypeV) and v.name == "object":
                    continue
                while isinstance(v, Native) and v.kind == "typing" and isinstance(v.attrs.get("args"), tuple) and \
                        isinstance(v.attrs["args"][0], (Class, Native)):
                    v = v.attrs["args"][0]
                if isinstance(v, Native) and v.kind == "typing":
                    if v.attrs.get("name") in ("NamedTuple", "TypedDict"):
                        special = v.attrs["name"]
                    continue
                if isinstance(v, TypeV) and v.name in ("str", "int"):
                    mixin = v.name
                    continue
                bases.append(v)
        for k in s.keywords:
            if k.arg == "metaclass":
                m = self.ev(k.value, env)
                if not (isinstance(m, Native) and m.kind == "metaclass"):
                    raise Incomplete("metaclass %r" % (m,))
        if mixin and not any(isinstance(b, Class) and b.lookup("*enum")[1] is not None for b in bases):
            raise Incomplete("class %s derives from %s" % (s.name, mixin))
        for b in bases:
            if not isinstance(b, (Class, ExcClass)):
                raise Incomplete("class %s derives from %r" % (s.name, b))
        qual = (env.module.name if env.func is None and not env.is_class else
                (env.cls_cell if env.is_class else env.func.qual)) + "." + s.name
        ce = Env(env.module, env)
        ce.is_class = True
        ce.cls_cell = qual
        self.exec_block(s.body, ce)
        c = Class(s.name, bases, ce.vars, env.module, qual)
        for v in c.ns.values():
            for f in (v, getattr(v, "f", None), getattr(v, "fget", None), getattr(v, "fset", None), getattr(v, "fdel", None)):
                g = f
                while isinstance(g, Func) and g.cls is None and g.closure is ce:
                    g.cls = c
                    g = g.attrs.get("__wrapped__")
                if isinstance(f, Instance):
                    for g in f.attrs.values():
                        if isinstance(g, Func) and g.cls is None and g.closure is ce:
                            g.cls = c
        if special or mixin or any(isinstance(b, Class) and b.lookup("*enum")[1] is not None for b in bases):
            from . import pylib
            pylib.special_class(self, c, special, mixin)
        for n, v in list(c.ns.items()):
            if isinstance(v, Instance):
                f, _ = v.cls.lookup("__set_name__")
                if f is not None:
                    self.call(BoundMethod(f, v), [c, n])
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg not in (None, "metaclass")}
        for b in c.mro[1:]:
            if isinstance(b, Class) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                self.call(BoundMethod(f.f if isinstance(f, ClassMethodV) else f, c), [], kw)
                break
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.assign_name(s.name, v, env)

    def x_Match(self, s, env):
        subj = self.ev(s.subject, env)
        for case in s.cases:
            if self.match(case.pattern, subj, env) and (case.guard is None or self.truth(self.ev(case.guard, env))):
                self.exec_block(case.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, PyList)):
                return False
            items = list(self.iterate(v))
            st = [k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if st:
                k, r = st[0], len(p.patterns) - st[0] - 1
                if len(items) < k + r:
                    return False
                if not all(self.match(q, x, env) for q, x in zip(p.patterns[:k], items)):
                    return False
                if r and not all(self.match(q, x, env) for q, x in zip(p.patterns[-r:], items[-r:])):
                    return False
                if p.patterns[k].name:
                    env.vars[p.patterns[k].name] = PyList(items[k:len(items) - r])
                return True
            return len(items) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, PyDict):
                return False
            ks = [self.ev(k, env) for k in p.keys]
            for k, q in zip(ks, p.patterns):
                if not self.dict_has(v, k) or not self.match(q, self.dict_get(v, k), env):
                    return False
            if p.rest:
                if v.sym:
                    raise Incomplete("rest of a dict with unknown keys")
                env.vars[p.rest] = PyDict({k: x for k, x in v.d.items() if not any(k == self.dkey(y) for y in ks)})
            return True
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, env)
            if not self.truth(self.call(self.builtins["isinstance"], [v, c])):
                return False
            pos = []
            if p.patterns:
                if isinstance(c, TypeV):
                    if len(p.patterns) != 1:
                        raise Incomplete("class pattern")
                    if not self.match(p.patterns[0], v, env):
                        return False
                else:
                    m, k = c.lookup("__match_args__")
                    if k is None:
                        raise Incomplete("class pattern")
                    pos = list(zip(m, p.patterns))
            return all(self.truth(self.call(self.builtins["hasattr"], [v, n])) and self.match(q, self.getattr(v, n), env)
                       for n, q in pos + list(zip(p.kwd_attrs, p.kwd_patterns)))
        raise Incomplete("match pattern %s" % type(p).__name__)

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < k + after:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, PyList(items[k:len(items) - after]), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                self.raise_("ValueError", "%s values to unpack (expected %d, got %d)" % (
                    "too many" if len(items) > len(t.elts) else "not enough", len(t.elts), len(items)))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            raise Incomplete("starred assignment")
        else:
            raise Incomplete("assignment target %s" % type(t).__name__)

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        if self.frames:
            ln = getattr(e, "lineno", None)
            if ln is not None:
                self.frames[-1][1] = ln
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Incomplete("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Num(T.tt(v), "float")
        if isinstance(v, (bool, int, str)) or v is None or v is Ellipsis:
            return v
        if isinstance(v, bytes):
            return v
        raise Incomplete("constant %r" % (v,))

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return PyList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return PySet(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                d.d.update(o.d)
                d.sym.extend(o.sym)
            else:
                kk = self.ev(k, env)
                self.dict_set(d, kk, self.ev(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.conversion != -1 or v.format_spec is not None:
                    spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                    conv = {115: str, 114: repr, 97: ascii}.get(v.conversion, lambda y: y)
                    if isinstance(spec, str):
                        try:
                            r = self.lib.formatted(lambda y: format(conv(y), spec), x)
                        except LibError as e:
                            self.raise_(e.cls, e.msg, lib=True)
                        if r is not None:
                            parts.append(r)
                            continue
                try:
                    parts.append(self.lib.to_text(self, x))
                except Incomplete:
                    parts.append("?")
        if any(not isinstance(p, str) for p in parts):
            return SymStr("".join(p if isinstance(p, str) else "{%s}" % getattr(p, "name", p) for p in parts))
        return "".join(parts)

    def e_FormattedValue(self, e, env):
        return self.lib.to_text(self, self.ev(e.value, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Num) and v.kind == "bool":
                return mknum(ONE - v.term, "bool")
            return not self.truth(v)
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, Tensor):
            return self.lib.tensor_unop(self, op, v)
        if is_num(v):
            if op == "USub":
                return mknum(-num_term(v), "int" if num_kind(v) == "bool" else num_kind(v))
            if op == "UAdd":
                return v
            if op == "Invert" and num_kind(v) in ("int", "bool"):
                return mknum(-num_term(v) - 1, "int")
        if isinstance(v, Instance):
            f, _ = v.cls.lookup({"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[op])
            if f is not None:
                return self.call(BoundMethod(f, v), [])
        self.raise_("TypeError", "bad operand type for unary %s" % op)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        self.frames[-1][1] = e.lineno
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return self.lib.tensor_binop(self, op, a, b)
        if is_num(a) and is_num(b):
            return self.num_binop(op, a, b)
        if op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(a.items + b.items)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
                return SymStr("text")
        if op == "Mult":
            if isinstance(a, (int, Num)) and isinstance(b, (tuple, PyList, str)):
                a, b = b, a
            if isinstance(a, (tuple, PyList, str)) and isinstance(b, (int, Num)):
                n = self.concrete_int(b, "repetition count of a sequence")
                if isinstance(a, PyList):
                    return PyList(a.items * n)
                return a * n
        if op == "Mod" and isinstance(a, str):
            r = self.lib.formatted(lambda x, y: x % y, a, b)
            return r if r is not None else SymStr("%s %% (%s)" % (a, ", ".join(
                str(self.lib.to_text(self, x)) for x in (b if isinstance(b, tuple) else (b,)))))
        if op == "BitOr":
            if isinstance(a, PyDict) and isinstance(b, PyDict):
                d = PyDict({**a.d, **b.d})
                d.sym = a.sym + b.sym
                return d
            if isinstance(a, PySet) and isinstance(b, PySet):
                return PySet(a.items + b.items)
            if all(isinstance(x, (TypeV, Class, Native)) or x is None for x in (a, b)):
                return Native("typing", args=(a, b))
        if isinstance(a, PySet) and isinstance(b, PySet):
            if op == "Sub":
                return PySet([x for x in a.items if x not in b.items])
            if op == "BitAnd":
                return PySet([x for x in a.items if x in b.items])
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            if isinstance(x, Instance):
                nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul",
                      "Mod": "mod", "Pow": "pow", "FloorDiv": "floordiv"}.get(op)
                f, _ = x.cls.lookup(pre + str(nm) + "__")
                if f is not None:
                    return self.call(BoundMethod(f, x), [y])
        self.raise_("TypeError", "unsupported operand type(s) for %s: %s and %s" % (
            op, self.lib.type_name(a), self.lib.type_name(b)))

    def num_binop(self, op, a, b):
        ka, kb = num_kind(a), num_kind(b)
        if ka == "bool":
            ka = "int"
        if kb == "bool":
            kb = "int"
        if op in ("BitAnd", "BitOr") and num_kind(a) == "bool" and num_kind(b) == "bool":
            x, y = num_term(a), num_term(b)
            return mknum(T.land(x, y) if op == "BitAnd" else T.lor(x, y), "bool")
        kind = "float" if "float" in (ka, kb) else "int"
        x, y = norm(num_term(a)), norm(num_term(b))
        if op == "Add":
            return mknum(x + y, kind)
        if op == "Sub":
            return mknum(x - y, kind)
        if op == "Mult":
            return mknum(x * y, kind)
        if op == "Div":
            self.check_zero(y)
            return mknum(x / y, "float")
        if op == "FloorDiv":
            self.check_zero(y)
            if kind == "float":
                return mknum(T.fun("floor", x / y), "float")
            return mknum(T.floordiv(x, y), kind)
        if op == "Mod":
            self.check_zero(y)
            if kind == "float" or not (x.is_int and y.is_int):
                if x.const is not None and y.const is not None:
                    return mknum(T.mod(x, y), kind)
                return mknum(T.fmod(x, y), kind)
            return mknum(T.mod(x, y), kind)
        if op == "Pow":
            return self.lib.num_pow(x, y, kind)
        if isinstance(a, int) and isinstance(b, int):
            import operator
            f = {"LShift": operator.lshift, "RShift": operator.rshift, "BitAnd": operator.and_,
                 "BitOr": operator.or_, "BitXor": operator.xor}.get(op)
            if f:
                return f(a, b)
        raise Incomplete("operation %s on numbers" % op)

    def check_zero(self, y):
        if y.const == 0:
            self.raise_("ZeroDivisionError", "division by zero")
        if y.const is None and y.is_int and not T.nonneg(y - 1) and not T.nonneg(-y - 1):
            if self.decide(T.eq(y, ZERO)):
                self.raise_("ZeroDivisionError", "division by zero")

    def concrete_int(self, v, what="number"):
        if isinstance(v, int):
            return v
        if isinstance(v, Num):
            c = norm(v.term).const
            if c is not None and int(c) == c:
                return int(c)
        if isinstance(v, Tensor):
            c = norm(X.scalar_of(v)).const
            if c is not None:
                return int(c)
        raise Incomplete("%s is symbolic: %r" % (what, v))

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.compare(type(op).__name__, left, right)
            if k < len(e.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if op == "In":
                return r
            return mknum(ONE - r.term, "bool") if isinstance(r, Num) else not r
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if (isinstance(a, Tensor) or is_num(a)) and (isinstance(b, Tensor) or is_num(b)):
                return self.lib.tensor_compare(self, op, a, b)
            if op == "Eq":
                return False
            if op == "NotEq":
                return True
        if is_num(a) and is_num(b):
            x, y = norm(num_term(a)), norm(num_term(b))
            t = {"Eq": lambda: T.eq(x, y), "NotEq": lambda: ONE - T.eq(x, y), "Lt": lambda: T.lt(x, y),
                 "LtE": lambda: T.le(x, y), "Gt": lambda: T.lt(y, x), "GtE": lambda: T.le(y, x)}[op]()
            return mknum(t, "bool")
        if op == "NotEq":
            r = self.compare("Eq", a, b)
            return mknum(ONE - r.term, "bool") if isinstance(r, Num) else not r
        if op == "Eq":
            return self.equal(a, b)
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            x, y = list(self.iterate(a)), list(self.iterate(b))
            for p, q in zip(x, y):
                if self.truth(self.compare("Eq", p, q)):
                    continue
                return self.compare(op, p, q)
            return {"Lt": len(x) < len(y), "LtE": len(x) <= len(y), "Gt": len(x) > len(y), "GtE": len(x) >= len(y)}[op]
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        names = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
        swap = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
        for x, y, o in ((a, b, op), (b, a, swap[op])):
            if isinstance(x, Instance):
                f, _ = x.cls.lookup(names[o])
                if f is not None:
                    r = self.call(BoundMethod(f, x), [y])
                    if not (isinstance(r, Native) and r.kind == "NotImplemented"):
                        return r
        if isinstance(a, PySet) and isinstance(b, PySet):
            sub = all(x in b.items for x in a.items)
            sup = all(x in a.items for x in b.items)
            return {"LtE": sub, "GtE": sup, "Lt": sub and not sup, "Gt": sup and not sub}[op]
        self.raise_("TypeError", "%s not supported between %s and %s" % (
            op, self.lib.type_name(a), self.lib.type_name(b)))

    def equal(self, a, b):
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(a, SymStr) and isinstance(b, SymStr):
                if a.name == b.name:
                    return True
                raise Incomplete("comparison of two unknown texts")
            s, c = (a, b) if isinstance(a, SymStr) else (b, a)
            if not isinstance(c, str):
                return False
            if s.among is not None and c not in s.among:
                return False
            return mknum(norm(T.streq(s.name, c)), "bool")
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            x, y = list(self.iterate(a)), list(self.iterate(b))
            if len(x) != len(y):
                return False
            r = ONE
            for p, q in zip(x, y):
                v = self.compare("Eq", p, q)
                if v is False:
                    return False
                if isinstance(v, Num):
                    r = T.land(r, v.term)
                elif isinstance(v, Tensor):
                    if not self.truth(v):
                        return False
            return mknum(r, "bool")
        if isinstance(a, PySet) and isinstance(b, PySet):
            return all(x in b.items for x in a.items) and all(x in a.items for x in b.items)
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            return set(a.d) == set(b.d) and all(self.truth(self.compare("Eq", a.d[k], b.d[k])) for k in a.d)
        if isinstance(a, Instance):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                r = self.call(BoundMethod(f, a), [b])
                if not (isinstance(r, Native) and r.kind == "NotImplemented"):
                    return r
            return a is b
        if isinstance(b, Instance) and b.cls.lookup("__eq__")[0] is not None:
            r = self.call(BoundMethod(b.cls.lookup("__eq__")[0], b), [a])
            if not (isinstance(r, Native) and r.kind == "NotImplemented"):
                return r
            return False
        if isinstance(a, X.Device) or isinstance(b, X.Device):
            x = a if isinstance(a, X.Device) else b
            y = b if x is a else a
            if isinstance(y, str):
                return x.name == y
            return x == y
        try:
            return a == b
        except Exception:
            return a is b

    def is_same(self, a, b):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Num) and a.kind == "bool" and isinstance(b, bool):
                t = a.term if b else ONE - a.term
                return self.decide(t) if t.const is None else t.const == 1
            return a is b
        if isinstance(a, (int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, (Lib, X.Device)):
            return a == b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        return a is b

    def contains(self, c, x):
        if isinstance(c, PyDict):
            return self.dict_has(c, x)
        if isinstance(c, (tuple, PyList, PySet)):
            items = list(c) if isinstance(c, tuple) else c.items
            r = ZERO
            for y in items:
                if y is x:
                    return True
                v = self.compare("Eq", y, x)
                if v is True:
                    return True
                if isinstance(v, Num):
                    r = T.lor(r, v.term)
                elif isinstance(v, Tensor):
                    if self.truth(v):
                        return True
            return mknum(r, "bool")
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Incomplete("unknown text in a text")
        if isinstance(c, range):
            if isinstance(x, int):
                return x in c
            t = num_term(x)
            if c.step == 1:
                return mknum(T.land(T.le(T.tt(c.start), t), T.lt(t, T.tt(c.stop))), "bool")
        if isinstance(c, SymRange) and c.step is ONE:
            t = num_term(x)
            return mknum(T.land(T.le(c.lo, t), T.lt(t, c.lo + c.n)), "bool")
        if isinstance(c, Tensor):
            e = self.lib.tensor_compare(self, "Eq", c, x)
            return mknum(X.scalar_of(self.lib.any_(e)), "bool")
        if isinstance(c, Instance):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return mknum(ONE if self.truth(self.call(BoundMethod(f, c), [x])) else ZERO, "bool")
            if c.cls.lookup("__iter__")[0] is not None:
                return self.contains(PyList(self.iterate(c)), x)
        if isinstance(c, Gen) or isinstance(c, Native) and c.kind in ("iter", "stream"):
            for y in self.lazily(c):
                if y is x or self.truth(self.compare("Eq", y, x)):
                    return True
            return False
        if isinstance(c, Class) and "*members" in c.ns:
            return self.contains(PyList(list(c.ns["*members"].values())), x)
        raise Incomplete("membership in %r" % (c,))

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_Starred(self, e, env):
        raise Incomplete("starred expression")

    def e_Attribute(self, e, env):
        o = self.ev(e.value, env)
        self.frames[-1][1] = e.lineno
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        ix = self.ev_index(e.slice, env)
        self.frames[-1][1] = e.lineno
        return self.getitem(o, ix)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, env)
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iterate(self.ev(x.value, env)))
                else:
                    out.append(self.ev_index(x, env))
            return tuple(out)
        return self.ev(s, env)

    def e_Slice(self, s, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(s.lower), f(s.upper), f(s.step))

    def e_ListComp(self, e, env):
        return PyList(self.comp(e.generators, lambda en: self.ev(e.elt, en), env))

    def e_SetComp(self, e, env):
        return PySet(self.comp(e.generators, lambda en: self.ev(e.elt, en), env))

    def e_GeneratorExp(self, e, env):
        return PyList(self.comp(e.generators, lambda en: self.ev(e.elt, en), env))

    def e_DictComp(self, e, env):
        d = PyDict()
        for k, v in self.comp(e.generators, lambda en: (self.ev(e.key, en), self.ev(e.value, en)), env):
            self.dict_set(d, k, v)
        return d

    def comp(self, gens, fn, env):
        out = []
        ce = Env(env.module, env, func=None)
        ce.globals = ()

        def go(k):
            if k == len(gens):
                out.append(fn(ce))
                return
            g = gens[k]
            for v in self.lazily(self.ev(g.iter, ce if k else env)):
                if len(out) > 20000:
                    raise Incomplete("endless iterator")
                self.assign(g.target, v, ce)
                if all(self.truth(self.ev(c, ce)) for c in g.ifs):
                    go(k + 1)
        go(0)
        return out

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        en = env
        while en.yields is None:
            en = en.parent
        return en.yields.put(v)

    def e_YieldFrom(self, e, env):
        en = env
        while en.yields is None:
            en = en.parent
        x = self.ev(e.value, env)
        if isinstance(x, Gen):
            sent = None
            while True:
                try:
                    v = x.resume(sent)
                except StopGen as r:
                    return r.v
                try:
                    sent = en.yields.put(v)
                except PyRaise as r:
                    sent = r
        for v in self.lazily(x):
            en.yields.put(v)
        return None

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        if isinstance(v, (tuple, str, range)):
            return list(v)
        if isinstance(v, (PyList, PySet)):
            return list(v.items)
        if isinstance(v, PyDict):
            if v.sym:
                raise Incomplete("iteration over a dict with unknown keys")
            return list(v.d)
        if isinstance(v, Tensor):
            if v.ndim == 0:
                self.raise_("TypeError", "iteration over a 0-d tensor", lib=True)
            n = norm(v.shape[0]).const
            if n is None:
                raise Incomplete("iteration over a tensor axis of symbolic size")
            return [X.select(v, 0, k) for k in range(int(n))]
        if isinstance(v, SymRange):
            raise Incomplete("loop of symbolic length")
        if isinstance(v, Gen) or isinstance(v, Native) and v.kind in ("iter", "stream"):
            out = []
            for x in self.lazily(v):
                out.append(x)
                if len(out) > 20000:
                    raise Incomplete("endless iterator")
            return out
        if isinstance(v, Native):
            if "iterable" in v.attrs:
                return self.iterate(v.attrs["iterable"])
        if isinstance(v, Class) and "*members" in v.ns:
            return list(v.ns["*members"].values())
        if isinstance(v, Instance):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                r = self.call(BoundMethod(f, v), [])
                if r is v:
                    return list(self.lazily(v))
                return self.iterate(r)
            f, _ = v.cls.lookup("__getitem__")
            if f is not None:
                out = []
                while True:
                    try:
                        out.append(self.call(BoundMethod(f, v), [len(out)]))
                    except PyRaise as e:
                        if e.val.name == "IndexError":
                            return out
                        raise
                    if len(out) > 20000:
                        raise Incomplete("endless iterator")
        if isinstance(v, (Num, int)) or v is None:
            self.raise_("TypeError", "%s object is not iterable" % self.lib.type_name(v))
        raise Incomplete("iteration over %r" % (v,))

    def lazily(self, v):
        """The values of an iterable one by one, as the loop asks for them."""
        if isinstance(v, Native) and v.kind == "pbar":
            v = v.attrs["iterable"]
        if isinstance(v, Gen):
            while True:
                try:
                    x = v.resume()
                except StopGen:
                    return
                yield x
        elif isinstance(v, Native) and v.kind == "iter":
            l = v.attrs["iterable"].items
            while l:
                yield l.pop(0)
        elif isinstance(v, Native) and v.kind == "stream":
            while True:
                try:
                    x = v.attrs["pull"]()
                except StopGen:
                    return
                yield x
        elif isinstance(v, PyList):
            k = 0
            while k < len(v.items):
                yield v.items[k]
                k += 1
        elif isinstance(v, Instance) and v.cls.lookup("__iter__")[0] is not None:
            r = self.call(BoundMethod(v.cls.lookup("__iter__")[0], v), [])
            if isinstance(r, Instance) and r.cls.lookup("__next__")[0] is not None:
                while True:
                    try:
                        x = self.call(BoundMethod(r.cls.lookup("__next__")[0], r), [])
                    except PyRaise as e:
                        if e.val.name == "StopIteration":
                            return
                        raise
                    yield x
            elif r is not v:
                yield from self.lazily(r)
            else:
                raise Incomplete("iteration over %r" % (v,))
        else:
            yield from self.iterate(v)

    # -------------------------------------------------------------- dicts
    def equal_key(self, a, b):
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return a is b
        r = self.compare("Eq", a, b)
        return self.truth(r)

    def dkey(self, k):
        if isinstance(k, Num):
            c = norm(k.term).const
            if c is not None:
                return int(c) if int(c) == c else c
            return None
        if isinstance(k, SymStr):
            return None
        if isinstance(k, (PyList, PyDict)):
            self.raise_("TypeError", "unhashable type")
        if isinstance(k, Instance) and k.cls.lookup("__eq__")[0] is not None:
            raise Incomplete("a dict key with its own equality")
        return k

    def dict_set(self, d, k, v):
        kk = self.dkey(k)
        if kk is None and k is not None:
            # an unknown key equal to an existing one replaces its value
            for k2 in list(d.d):
                if self.truth(self.compare("Eq", k, k2)):
                    d.d[k2] = v
                    return
            for q, (k3, _) in enumerate(d.sym):
                if k3 == k or (isinstance(k3, Num) and isinstance(k, Num) and norm(k3.term) is norm(k.term)):
                    d.sym[q] = (k, v)
                    return
            d.sym.append((k, v))
            return
        d.d[kk] = v

    def dict_has(self, d, k):
        kk = self.dkey(k)
        if kk is None and k is not None:
            for k2 in d.d:
                if self.truth(self.compare("Eq", k, k2)):
                    return True
            for k3, _ in d.sym:
                if self.truth(self.compare("Eq", k, k3)):
                    return True
            return False
        if kk in d.d:
            return True
        for k3, _ in d.sym:
            if self.truth(self.compare("Eq", k, k3)):
                return True
        return False

    def dict_get(self, d, k, default=_UNSET):
        kk = self.dkey(k)
        if kk is None and k is not None:
            for k3, v in reversed(d.sym):
                if k3 == k or (isinstance(k3, Num) and isinstance(k, Num) and norm(k3.term) is norm(k.term)):
                    return v
            for k2 in d.d:
                if self.truth(self.compare("Eq", k, k2)):
                    return d.d[k2]
            for k3, v in d.sym:
                if self.truth(self.compare("Eq", k, k3)):
                    return v
        else:
            if kk in d.d:
                return d.d[kk]
            for k3, v in d.sym:
                if self.truth(self.compare("Eq", k, k3)):
                    return v
        if default is not _UNSET:
            return default
        if d.factory is not None:
            v = self.call(d.factory, [])
            if not d.counter:
                self.dict_set(d, k, v)
            return v
        self.raise_("KeyError", k)

    # -------------------------------------------------------------- subscripts
    def getitem(self, o, ix):
        try:
            if isinstance(o, Tensor):
                return X.getitem(o, self.tensor_index(ix))
            if isinstance(o, (tuple, PyList, str)):
                seq = o.items if isinstance(o, PyList) else o
                if isinstance(ix, slice):
                    f = lambda x: None if x is None else self.concrete_int(x, "slice bound of a sequence")
                    r = seq[slice(f(ix.start), f(ix.stop), f(ix.step))]
                    return PyList(r) if isinstance(o, PyList) else r
                if isinstance(ix, (Num, Tensor)):
                    ix = self.concrete_int(ix, "index of a sequence")
                if not isinstance(ix, int):
                    self.raise_("TypeError", "sequence indices must be integers")
                if not -len(seq) <= ix < len(seq):
                    self.raise_("IndexError", "index out of range")
                return seq[ix]
            if isinstance(o, PyDict):
                return self.dict_get(o, ix)
            if isinstance(o, range):
                r = o[ix]
                return r
            if isinstance(o, Class):
                f, c = o.lookup("__class_getitem__")
                if f is not None:
                    return self.call(BoundMethod(f.f if isinstance(f, ClassMethodV) else f, o), [ix])
                if "*members" in o.ns:
                    if ix not in o.ns["*members"]:
                        self.raise_("KeyError", ix)
                    return o.ns["*members"][ix]
            if isinstance(o, (TypeV, Class, Lib)) or (isinstance(o, Native) and o.kind == "typing") or \
                    isinstance(o, Builtin):
                return Native("typing", args=(o, ix))
            if isinstance(o, Instance):
                f, _ = o.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(BoundMethod(f, o), [ix])
            if isinstance(o, Native) and "getitem" in o.attrs:
                return o.attrs["getitem"](ix)
        except LibError as e:
            self.raise_(e.cls, e.msg, lib=True)
        if o is None or is_num(o):
            self.raise_("TypeError", "%s object is not subscriptable" % self.lib.type_name(o))
        raise Incomplete("subscript of %r" % (o,))

    def tensor_index(self, ix):
        if isinstance(ix, tuple):
            return tuple(self.tensor_index1(x) for x in ix)
        return self.tensor_index1(ix)

    def tensor_index1(self, x):
        if isinstance(x, PyList):
            return X.tensor_from(self.plain(x))
        if isinstance(x, tuple):
            return X.tensor_from(self.plain(x))
        if isinstance(x, Num) and x.kind == "bool":
            return self.truth(x)
        return x

    def plain(self, x):
        """Nested lists as Python lists."""
        if isinstance(x, (PyList, tuple)):
            return [self.plain(y) for y in (x.items if isinstance(x, PyList) else x)]
        if isinstance(x, range):
            return list(x)
        return x

    def setitem(self, o, ix, v):
        try:
            if isinstance(o, Tensor):
                if not (isinstance(v, Tensor) or is_num(v)):
                    if isinstance(v, (PyList, tuple)):
                        v = X.tensor_from(self.plain(v))
                    else:
                        raise Incomplete("assignment of %r to tensor entries" % (v,))
                self.lib.check_leaf_write(self, o)
                X.setitem(o, self.tensor_index(ix), v)
                return
        except LibError as e:
            self.raise_(e.cls, e.msg, lib=True)
        if isinstance(o, PyList):
            self.note_write(o, "assignment to a list entry")
            if isinstance(ix, slice):
                f = lambda x: None if x is None else self.concrete_int(x)
                o.items[slice(f(ix.start), f(ix.stop), f(ix.step))] = list(self.iterate(v))
                return
            ix = self.concrete_int(ix, "list index")
            if not -len(o.items) <= ix < len(o.items):
                self.raise_("IndexError", "list assignment index out of range")
            o.items[ix] = v
            return
        if isinstance(o, PyDict):
            self.note_write(o, "assignment to a dict entry")
            self.dict_set(o, ix, v)
            return
        if isinstance(o, Instance):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(BoundMethod(f, o), [ix, v])
                return
        if isinstance(o, tuple):
            self.raise_("TypeError", "'tuple' object does not support item assignment")
        raise Incomplete("item assignment on %r" % (o,))

    # -------------------------------------------------------------- attributes
    def is_module(self, inst):
        mc = self.lib.module_class(self)
        return mc is not None and inst.cls.is_sub(mc)

    def getattr(self, o, name):
        if isinstance(o, Tensor):
            try:
                return self.lib.tensor_attr(self, o, name)
            except LibError as e:
                self.raise_(e.cls, e.msg, lib=True)
        if isinstance(o, Instance):
            return self.inst_attr(o, name)
        if isinstance(o, (NTup, EStr, EInt)):
            fs = o.cls.lookup("*fields")[0] if isinstance(o, NTup) else None
            if fs and name in fs:
                return o[fs.index(name)]
            v, c = o.cls.lookup(name)
            if name == "value" and fs is None:
                return str.__str__(o) if isinstance(o, EStr) else int(o)
            if name == "name" and fs is None:
                return [k for k, m in o.cls.ns["*members"].items() if m is o][0]
            if name == "__class__":
                return o.cls
            if c is not None:
                return self.bind(v, o)
        if isinstance(o, Gen):
            from . import pylib
            return pylib.gen_attr(self, o, name)
        if isinstance(o, PropertyV):
            if name in ("getter", "setter", "deleter"):
                k = ("getter", "setter", "deleter").index(name)
                return Builtin(name, lambda f: PropertyV(*[f if j == k else x for j, x in enumerate((o.fget, o.fset, o.fdel))]))
            if name in ("fget", "fset", "fdel"):
                return getattr(o, name)
        if isinstance(o, ModuleV):
            if name in o.ns and not name.startswith("*"):
                return o.ns[name]
            sub = o.name + "." + name
            if sub in self.mods:
                return self.mods[sub]
            if name == "__dict__":
                return PyDict(o.ns)
            self.raise_("AttributeError", "module %r has no attribute %r%s" % (
                o.name, name, "" if o.done else " (partially initialized module, import cycle)"))
        if isinstance(o, Lib):
            return self.lib.lib_attr(self, o, name)
        if isinstance(o, SuperV):
            return self.super_attr(o, name)
        if isinstance(o, Class):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticV):
                    return v.f
                if isinstance(v, ClassMethodV):
                    return BoundMethod(v.f, o)
                if isinstance(v, Instance):
                    g, k = v.cls.lookup("__get__")
                    if g is not None:
                        return self.call(BoundMethod(g, v), [None, o])
                return v
            if name == "__dict__":
                return PyDict(o.ns)
            if name == "__module__":
                return o.module.name if isinstance(o.module, ModuleV) else "builtins"
            if name == "__doc__":
                return None
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__members__" and "*members" in o.ns:
                return PyDict(o.ns["*members"])
            if name == "__annotations__":
                raise Incomplete("annotations of a class")
            if name == "__setattr__":
                return Builtin("object.__setattr__", lambda s, n, v: self.setattr(s, n, v, raw=True))
            if name == "__getattribute__":
                return Builtin("object.__getattribute__", lambda s, n: self.getattr(s, n))
            if name == "__new__":
                return Builtin("object.__new__", lambda c, *a, **k: Instance(c))
            if name == "__init_subclass__":
                return Builtin("object.__init_subclass__", lambda *a, **k: None)
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__qualname__":
                return o.name
            if name == "__init__":
                return Builtin("object.__init__", lambda *a, **k: None)
            self.raise_("AttributeError", "type object %r has no attribute %r" % (o.name, name))
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, (Func, Builtin)):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__doc__":
                return None
            if name == "__module__":
                return o.module.name if isinstance(o, Func) else "builtins"
            self.raise_("AttributeError", "function has no attribute %r" % name)
        if isinstance(o, ExcVal):
            if name == "args":
                return o.args
            if name in o.attrs:
                return o.attrs[name]
        return self.lib.value_attr(self, o, name)

    def bind(self, v, inst):
        if isinstance(v, (Func, Builtin)):
            return BoundMethod(v, inst)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMethodV):
            return BoundMethod(v.f, inst.cls)
        if isinstance(v, PropertyV):
            return self.call(v.fget, [inst])
        if isinstance(v, Instance):
            g, c = v.cls.lookup("__get__")
            if g is not None:
                return self.call(BoundMethod(g, v), [inst, inst.cls])
        return v

    def inst_attr(self, o, name):
        v, c = o.cls.lookup(name)
        if c is not None and isinstance(v, PropertyV):
            return self.call(v.fget, [o])
        if isinstance(v, Instance) and v.cls.lookup("__set__")[0] is not None:
            return self.bind(v, o)
        if name in o.attrs:
            return o.attrs[name]
        if c is not None:
            return self.bind(v, o)
        for d in (o.params, o.buffers, o.modules):
            if d is not None and name in d:
                return d[name]
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            d = PyDict()
            d.d = o.attrs
            return d
        if name == "__module__":
            return o.cls.module.name if isinstance(o.cls.module, ModuleV) else "builtins"
        if name == "__doc__":
            return None
        if name == "_parameters" and o.params is not None:
            return PyDict(o.params)
        if name == "_buffers" and o.buffers is not None:
            return PyDict(o.buffers)
        if name == "_modules" and o.modules is not None:
            return PyDict(o.modules)
        if name in o.native:
            return o.native[name]
        if name == "__init__":
            return Builtin("object.__init__", lambda *a, **k: None)
        g, c = o.cls.lookup("__getattr__")
        if g is not None:
            return self.call(BoundMethod(g, o), [name])
        if self.is_module(o) and name in MODULE_ATTRS:
            raise Incomplete("attribute %s of a module" % name)
        self.raise_("AttributeError", "%r object has no attribute %r" % (o.cls.name, name))

    def super_attr(self, s, name):
        mro = s.cls.mro
        k = [j for j, c in enumerate(mro) if c is s.start][0]
        for c in mro[k + 1:]:
            if isinstance(c, Class) and name in c.ns:
                v = c.ns[name]
                if isinstance(s.obj, Class):
                    return BoundMethod(v.f, s.obj) if isinstance(v, ClassMethodV) else v
                return self.bind(v, s.obj)
        if name == "__init__":
            return Builtin("object.__init__", lambda *a, **k: None)
        if name == "__setattr__":
            return Builtin("object.__setattr__", lambda n, v: self.setattr(s.obj, n, v, raw=True))
        if name == "__init_subclass__":
            return Builtin("object.__init_subclass__", lambda **k: None)
        if name == "__new__":
            return Builtin("object.__new__", lambda c, *a, **k: Instance(c))
        if name == "__repr__":
            return Builtin("object.__repr__", lambda: "text")
        self.raise_("AttributeError", "'super' object has no attribute %r" % name)

    def setattr(self, o, name, v, raw=False):
        if isinstance(o, Instance):
            if not raw:
                f, c = o.cls.lookup("__setattr__")
                if f is not None and (isinstance(f, Builtin) or isinstance(f, Func) and not f.module.name.startswith("torch")):
                    self.call(BoundMethod(f, o), [name, v])
                    return
            p, c = o.cls.lookup(name)
            if isinstance(p, PropertyV):
                if p.fset is None:
                    self.raise_("AttributeError", "can't set attribute %r" % name)
                self.call(p.fset, [o, v])
                return
            if isinstance(p, Instance):
                f, c = p.cls.lookup("__set__")
                if f is not None:
                    self.call(BoundMethod(f, p), [o, v])
                    return
            if self.is_module(o):
                self.lib.module_setattr(self, o, name, v)
                return
            o.attrs[name] = v
            return
        if isinstance(o, Tensor):
            self.lib.tensor_setattr(self, o, name, v)
            return
        if isinstance(o, ModuleV):
            self.ctx.event("write", "assignment to %s.%s" % (o.name, name), origin=("global", "%s.%s" % (o.name, name)))
            o.ns[name] = v
            return
        if isinstance(o, Class):
            self.ctx.event("write", "assignment to class attribute %s.%s" % (o.name, name),
                           origin=("global", "%s.%s" % (o.name, name)))
            o.ns[name] = v
            return
        if isinstance(o, (Func, Builtin, ExcVal)):
            o.attrs[name] = v
            return
        if isinstance(o, Native):
            o.attrs[name] = v
            return
        raise Incomplete("attribute assignment on %r" % (o,))

    # -------------------------------------------------------------- calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and not e.keywords:
            c = self.class_cell(env)
            en = env
            while en.first is None and en.parent is not None:
                en = en.parent
            if c is None:
                self.raise_("RuntimeError", "super(): no arguments")
            obj = en.first
            return SuperV(c, obj, obj.cls if isinstance(obj, Instance) else obj)
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, PyDict):
                    raise Incomplete("** of %r" % (d,))
                if d.sym:
                    raise Incomplete("** of a dict with unknown keys")
                for n, v in d.d.items():
                    if n in kw:
                        self.raise_("TypeError", "got multiple values for keyword argument %r" % n)
                    kw[n] = v
            else:
                if k.arg in kw:
                    self.raise_("TypeError", "got multiple values for keyword argument %r" % k.arg)
                kw[k.arg] = self.ev(k.value, env)
        self.frames[-1][1] = e.lineno
        if isinstance(f, Builtin) and f.raw:
            return f.fn(self, env, args, kw)
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return self.call_builtin(f, args, kw)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass):
            return ExcVal(f, tuple(args))
        if isinstance(f, TypeV):
            if f.make is None:
                raise Incomplete("call of type %s" % f.name)
            return self.call_builtin(Builtin(f.name, f.make), args, kw)
        if isinstance(f, Instance):
            m, c = f.cls.lookup("__call__")
            if m is not None:
                return self.call(BoundMethod(m, f), args, kw)
            self.raise_("TypeError", "%r object is not callable" % f.cls.name)
        if isinstance(f, Native) and "call" in f.attrs:
            return f.attrs["call"](*args, **kw)
        if isinstance(f, (StaticV,)):
            return self.call(f.f, args, kw)
        if isinstance(f, Lib):
            raise Incomplete("%s is not modelled" % f.path)
        if isinstance(f, (Tensor, Num, int, str, tuple, PyList, PyDict, ModuleV)) or f is None:
            self.raise_("TypeError", "%s object is not callable" % self.lib.type_name(f))
        raise Incomplete("call of %r" % (f,))

    def call_builtin(self, f, args, kw):
        try:
            self.lib.check_sig(f, args, kw)
            return f.fn(*args, **kw)
        except LibError as e:
            self.raise_(e.cls, e.msg, lib=True)

    def instantiate(self, c, args, kw):
        if any(isinstance(b, ExcClass) for b in c.mro):
            v = ExcVal(c, tuple(args))
            init, k = c.lookup("__init__")
            if init is not None:
                inst = Instance(c)
                self.call(BoundMethod(init, inst), args, kw)
                v.attrs = inst.attrs
            return v
        sp, k = c.lookup("*make")
        if sp is not None:
            return sp(c, args, kw)
        if c.abstract is None:
            c.abstract = [n for k in c.mro if isinstance(k, Class) for n, v in k.ns.items()
                          if is_abstract(v) and c.lookup(n)[0] is v] if any(getattr(k, "qual", "") == "abc.ABC" for k in c.mro) else []
        if c.abstract:
            self.raise_("TypeError", "Can't instantiate abstract class %s without an implementation for abstract method %r" % (
                c.name, c.abstract[0]))
        new, k = c.lookup("__new__")
        if new is not None:
            inst = self.call(new.f if isinstance(new, StaticV) else new, [c] + list(args), kw)
            if not isinstance(inst, Instance) or not inst.cls.is_sub(c):
                return inst
            if c.lookup("__init__")[0] is None:
                return inst
        else:
            inst = Instance(c)
        init, k = c.lookup("__init__")
        if init is not None:
            self.call(BoundMethod(init, inst), args, kw)
        elif args or kw:
            self.raise_("TypeError", "%s() takes no arguments" % c.name)
        return inst

    def bind_args(self, f, args, kw):
        i = f.info
        out = {}
        args = list(args)
        kw = dict(kw)
        n = len(i.params)
        for name, v in zip(i.params, args):
            out[name] = v
        if len(args) > n:
            if i.vararg is None:
                self.raise_("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, n, len(args)))
            out[i.vararg] = tuple(args[n:])
        elif i.vararg is not None:
            out[i.vararg] = ()
        extra = {}
        for k, v in kw.items():
            if k in i.params[i.posonly:] or k in i.kwonly:
                if k in out:
                    self.raise_("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
                out[k] = v
            elif i.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, k))
        if i.kwarg is not None:
            out[i.kwarg] = PyDict(extra)
        nd = len(f.defaults)
        for k, name in enumerate(i.params):
            if name not in out:
                j = k - (n - nd)
                if j < 0:
                    self.raise_("TypeError", "%s() missing required argument: %r" % (f.name, name))
                out[name] = f.defaults[j]
        for name in i.kwonly:
            if name not in out:
                if name not in f.kwdefaults:
                    self.raise_("TypeError", "%s() missing required keyword-only argument: %r" % (f.name, name))
                out[name] = f.kwdefaults[name]
        return out

    def call_func(self, f, args, kw):
        if len(self.frames) > 120:
            raise Incomplete("recursion too deep")
        vals = self.bind_args(f, args, kw)
        env = Env(f.module, f.closure, f, f.info.locals)
        env.vars = vals
        env.globals = f.info.globals
        env.first = args[0] if args else None
        path = f.module.path or ""
        rel = os.path.relpath(path, self.root) if path.startswith("/") else "<%s>" % path
        self.calls.add((rel, f.node.lineno, f.qual))
        if f.info.gen:
            def run():
                try:
                    self.exec_block(f.node.body, env)
                except _Return as r:
                    return r.v
                return None
            env.yields = Gen(self, run, [rel, f.node.lineno, f.qual], env)
            return env.yields
        self.frames.append([rel, f.node.lineno, f.qual])
        self.env_stack.append(env)
        grad_on = self.ctx.grad_on
        if "*grad" in f.attrs:
            self.ctx.grad_on = f.attrs["*grad"]
        try:
            if f.is_lambda or isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            self.exec_block(f.node.body, env)
        except _Return as r:
            return r.v
        finally:
            if "*grad" in f.attrs:
                self.ctx.grad_on = grad_on
            self.frames.pop()
            self.env_stack.pop()
        return None

    env_stack = None
    ctx_havoc = None


def _same_value(a, b):
    if isinstance(a, Num) and isinstance(b, Num):
        return a.term is b.term
    if isinstance(a, (int, str)) and type(a) is type(b):
        return a == b
    return False


def _assigned_first(body, name):
    """Is name assigned at the top level of body before it is read there?"""
    for s in body:
        reads = [n for n in ast.walk(s) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]
        aug = isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name
        if reads or aug:
            return False
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name) and n.id == name:
                        return True
    return False


def mark_origin(v, origin):
    if isinstance(v, (PyList, PyDict, PySet)):
        v.origin = origin
        for x in (v.items if not isinstance(v, PyDict) else list(v.d.values())):
            mark_origin(x, origin)
    elif isinstance(v, Tensor):
        v.st.origin = origin
    elif isinstance(v, tuple):
        for x in v:
            mark_origin(x, origin)


# ------------------------------------------------------------------ trace partitioning
MODULE_ATTRS = set("""T_destination __annotations__ __delattr__ __dir__ __getattr__ __repr__ __setstate__ __getstate__ __reduce__
__reduce_ex__ __format__ __sizeof__ _apply _backward_hooks _backward_pre_hooks _call_impl _compiled_call_impl _forward_hooks
_forward_pre_hooks _get_backward_hooks _get_name _is_full_backward_hook _load_from_state_dict _load_state_dict_post_hooks
_load_state_dict_pre_hooks _maybe_warn_non_full_backward_hook _named_members _non_persistent_buffers_set
_register_load_state_dict_pre_hook _register_state_dict_hook _replicate_for_data_parallel _save_to_state_dict _slow_forward
_state_dict_hooks _state_dict_pre_hooks _version _wrapped_call_impl add_module apply bfloat16 buffers call_super_init children
compile cpu cuda double dump_patches eval extra_repr float forward get_buffer get_extra_state get_parameter get_submodule half ipu
load_state_dict modules mtia named_buffers named_children named_modules named_parameters parameters register_backward_hook
register_buffer register_forward_hook register_forward_pre_hook register_full_backward_hook register_full_backward_pre_hook
register_load_state_dict_post_hook register_load_state_dict_pre_hook register_module register_parameter register_state_dict_post_hook
register_state_dict_pre_hook requires_grad_ set_extra_state set_submodule share_memory state_dict to to_empty train type xpu zero_grad
extend insert pop items keys values popitem setdefault update get clear fromkeys""".split())


class Outcome:
    def __init__(self, kind, value, ctx, interp, decisions):
        self.kind, self.value, self.ctx, self.interp, self.decisions = kind, value, ctx, interp, decisions

    def path(self):
        return ["%s%s" % ("" if v else "not ", T.show_atom(a)) for a, v in self.decisions]


def explore(run, root="/repo", stubs=None, max_paths=400, assume=(), gaps=None):
    """run(interp) is executed once per feasible decision list; yields Outcomes.

    run returns a value; a PyRaise escaping from it gives kind 'raise'.  With a list in gaps, partitions
    that are not modelled are recorded there (conditions, hints), and the first of them is raised in the end."""
    outs = []
    prefix = []
    n = 0
    while True:
        n += 1
        if n > max_paths:
            raise Incomplete("more than %d trace partitions" % max_paths)
        havoc = {}
        for attempt in range(8):
            ctx = X.Context()
            ctx.loop_records = []
            X.set_ctx(ctx)
            taken = []
            pos = [0]

            def decider(cond, ctx=ctx, taken=taken, pos=pos):
                cond = norm(cond)
                guardn = 0
                while cond.const is None:
                    guardn += 1
                    if guardn > 50:
                        raise Incomplete("condition does not settle")
                    inds = T.top_inds(cond)
                    if not inds:
                        # a condition that is not an indicator form
                        a = T.atom("ind", "nz", cond)
                    else:
                        a = inds[0]
                    known = _known(a, ctx)
                    if known is None:
                        if pos[0] < len(prefix):
                            a0, v = prefix[pos[0]]
                        else:
                            v = True
                            prefix.append((a, v))
                        pos[0] += 1
                        taken.append((a, v))
                        assume_atom(ctx, a, v)
                    else:
                        v = known
                    if not inds:
                        return v
                    cond = norm(T.restrict(cond, a, 1 if v else 0))
                return cond.const != 0
            ctx.decider = decider
            it = Interp(root, stubs)
            it.env_stack = []
            it.ctx_havoc = havoc
            try:
                for c in assume:
                    for a in T.top_inds(c):
                        if c is T.of_atom(a):
                            assume_atom(ctx, a, True)
                        elif c is ONE - T.of_atom(a):
                            assume_atom(ctx, a, False)
                try:
                    v = run(it)
                    outs.append(Outcome("return", v, ctx, it, list(taken)))
                except PyRaise as e:
                    outs.append(Outcome("raise", e, ctx, it, list(taken)))
                except LibError as e:
                    v = exc(e.cls, e.msg)
                    v.lib = True
                    outs.append(Outcome("raise", PyRaise(v, it.where(), it.stack()), ctx, it, list(taken)))
                except Infeasible:
                    pass
                except (Incomplete, T.TooBig, T.TermError) as e:
                    if gaps is None:
                        raise
                    if not gaps:
                        until = time.time() + 20
                    gaps.append((e, list(ctx.assumed), list(ctx.hints)))
                    if len(gaps) >= 6 or time.time() > until:
                        raise gaps[0][0]
                finally:
                    it.close()
            except Restart:
                continue
            break
        else:
            if gaps:
                raise gaps[0][0]
            raise Incomplete("loop summary does not stabilize")
        # next decision list
        del prefix[pos[0]:]
        while prefix and not prefix[-1][1]:
            prefix.pop()
        if not prefix:
            if gaps:
                raise gaps[0][0]
            return outs
        a, _ = prefix.pop()
        prefix.append((a, False))


def _known(a, ctx):
    for b, v in ctx.assumed:
        if b is a:
            return v
        if v:
            if a.kind == "ind" and T._exclusive(b, a):
                return False
            im = T._implies(b, a)
            if im == 1:
                return True
        else:
            im = T._implies(a, b)
            if im == 1:
                return False
            # not b, and (b or a) covers everything: p<0 false, q<0 with p+q <= -1 for integers
            if a.args[0] == "lt" and b.args[0] == "lt":
                s = (a.args[1] + b.args[1]).const
                if s is not None and (s < 0):
                    return True
    # p != 0 and not p < 0 for integers, ... : settle by bounds
    if a.kind == "ind" and a.args[0] in ("lt", "eq"):
        p = a.args[1]
        lo = hi = None
        for b, v in ctx.assumed:
            if b.kind != "ind" or b.args[0] not in ("lt", "eq"):
                continue
            for s in (1, -1):
                d = (T.scale(b.args[1], s) - p).const
                if d is None:
                    continue
                # b.arg = s*(p + d)
                if b.args[0] == "lt":
                    isint = p.is_int
                    if s == 1:
                        if v:      # p + d < 0 -> p <= -d-1
                            hi = _mn(hi, -d - 1 if isint else -d)
                        else:
                            lo = _mx(lo, -d)
                    else:
                        if v:      # -(p+d) < 0 -> p > -d
                            lo = _mx(lo, -d + 1 if isint else -d)
                        else:      # p + d <= 0
                            hi = _mn(hi, -d)
                elif v:
                    lo, hi = _mx(lo, -d), _mn(hi, -d)
        if p.is_int:
            if T.nonneg(p):
                lo = _mx(lo, 0)
            if T.nonneg(-p):
                hi = _mn(hi, 0)
            # excluded points at the borders
            for _ in range(4):
                for b, v in ctx.assumed:
                    if b.kind == "ind" and b.args[0] == "eq" and not v:
                        for s in (1, -1):
                            d = (T.scale(b.args[1], s) - p).const
                            if d is not None:
                                if lo is not None and lo == -d:
                                    lo = lo + 1
                                if hi is not None and hi == -d:
                                    hi = hi - 1
        if a.args[0] == "lt":
            if lo is not None and lo >= 0:
                return False
            if hi is not None and hi < 0:
                return True
        else:
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if lo is not None and lo == 0 and hi is not None and hi == 0:
                return True
    return None


def _mx(a, b):
    return b if a is None or b > a else a


def _mn(a, b):
    return b if a is None or b < a else a


def assume_atom(ctx, a, v):
    ctx.assumed.append((a, v))
    if v and a.args[0] == "eq":
        p = a.args[1]
        # solve for a plain symbol
        for m, c in p.poly:
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "sym":
                s = m[0][0]
                co, rest = T.linear(p, s)
                if co is not None and co.const is not None and s not in T.free_atoms(rest):
                    val = T.scale(rest, Fraction(-1) / co.const)
                    if s.args[1].is_int and not val.is_int:
                        continue
                    ctx.sub = {k: T.Subst({s: val}).term(x) for k, x in ctx.sub.items()}
                    ctx.sub[s] = val
                    break
