"""Obligations of a property: running the abstract interpreter on entry points, comparing the
resulting values with the specification, collecting violations and what was analysed.

Every case is analysed first with symbolic sizes.  Where the analysis does not cover a construct
at symbolic sizes (Incomplete), the case is analysed at fixed small sizes instead; where it does not
cover it at all the obligation is reported as undecided, never as a violation.
"""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from . import terms as T
from . import tensor as X
from . import interp as I
from .terms import ZERO, ONE, tt
from .tensor import Incomplete, Tensor, Num, CPU, norm

ROOT = os.environ.get("GCONV_ROOT", "/repo")

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CONCRETE = [
    {"default": [2, 3, 4, 5, 6, 7, 8, 9]},
    {"default": [3, 2, 5, 4, 2, 3, 1, 2]},
]


def directed_modes(gaps, los, most=6):
    """Fixed sizes that follow the partitions the symbolic run could not finish.

    A partition that is only reached by large sizes (a program that works in blocks, or that has another
    branch above a threshold) is not entered by the small sizes of CONCRETE.  The conditions of the
    partition and the block sizes seen in it give the candidates."""
    atoms = {s.poly[0][0][0][0]: n for n, (s, _, _) in los.items()}
    out = []
    for _, assumed, hints in gaps:
        conds = []
        consts = set()
        names = set()
        for a, v in assumed:
            fr = T.free_atoms(T.of_atom(a))
            if not fr or not all(x in atoms for x in fr):
                continue
            conds.append((T.of_atom(a), v))
            names |= {atoms[x] for x in fr}
            consts |= _constants(a.args[1])
        for t, c in hints:
            fr = [x for x in T.free_atoms(t) if x in atoms]
            if fr:
                consts.add(abs(c))
                names |= {atoms[x] for x in fr}
        names = sorted(names)[:6]
        consts = sorted(c for c in consts if 4 <= c <= 100000)
        if not names or not consts:
            continue

        def holds(val):
            mp = {los[n][0]: T.const(v - los[n][1]) for n, v in val.items()}
            for c, v in conds:
                r = norm(T.subst(c, mp)).const
                if r is None or (r != 0) != v:
                    return False
            return True
        base = {n: max(2 + k % 3, los[n][1] + los[n][2]) for k, n in enumerate(names)}
        found = []
        for c in consts[-3:]:
            for n in names:
                for x in (c + 1, 2 * c, 3 * c + 1):
                    val = dict(base)
                    val[n] = x
                    if holds(val) and val not in found:
                        found.append(val)
        for val in found[:3]:
            m = {"default": CONCRETE[0]["default"], **val}
            if m not in out:
                out.append(m)
    return out[:most]


def _constants(t, seen=None, depth=0):
    out = set()
    if isinstance(t, T.Term):
        for m, c in t.poly:
            if abs(c) >= 2 and c == int(c):
                out.add(abs(int(c)))
            for a, _e in m:
                out |= _constants(a, None, depth + 1)
    elif isinstance(t, T.Atom) and depth < 6:
        for x in t.args:
            if isinstance(x, (T.Term, T.Atom)):
                out |= _constants(x, None, depth + 1)
    return out


class Violation:
    def __init__(self, rule, what, where, detail, path=(), mode="", stack=(), calls=()):
        self.rule, self.what, self.where, self.detail = rule, what, where, detail
        self.path, self.mode, self.stack, self.calls = list(path), mode, list(stack), list(calls)

    def as_dict(self):
        return dict(rule=self.rule, obligation=self.what, construct=self.where, detail=self.detail,
                    path_condition=self.path, sizes=self.mode, call_stack=self.stack, functions=self.calls)


class Refuted(Exception):
    """An obligation failed; the rest of this trace is not looked at."""


class Timeout(Exception):
    pass


class Known:
    """A listed finding: matched violations are reported as KNOWN-FINDING."""


class Ck:
    """One run of one property's check."""

    def __init__(self, pid, tier="quick", seed=1, root=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.root = root or ROOT
        self.t0 = time.time()
        self.violations = []
        self.undecided = []
        self.known = []
        self.n_obl = 0
        self.n_nf = 0
        self.n_it = 0
        self.n_paths = 0
        self.cases = []
        self.functions = set()
        self.notes = []
        self.samples = []
        self.explanation = ""
        self.modes = {}
        self.deadline = self.t0 + (780 if tier == "quick" else 3300)
        self.known_matchers = []
        self.queue = []
        self.slow = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ------------------------------------------------------------------ cases
    def case(self, title, body, entry=None, stubs=None, assume=None, fallback=True, max_paths=400, limit=None,
             modes=None, concrete_only=False, confirm=False):
        """Analyse body(K) on every trace partition.

        entry: 'module:function' the obligation is about (for reports).
        confirm: a violation found with stubbed functions is looked at again without the stubs.
        """
        self.queue.append((title, body, entry, stubs, assume, fallback, max_paths, limit, modes, concrete_only, confirm))

    def flush(self):
        """Analyse the queued cases, each in a process of its own forked from the same state, several at a time."""
        queue, self.queue = self.queue, []
        if os.environ.get("GCHECK_SERIAL"):
            for q in queue:
                self._case(*q)
            return
        try:
            n = len(os.sched_getaffinity(0))
        except AttributeError:
            n = os.cpu_count() or 1
        n = max(1, min(8, n))
        running = {}
        results = {}
        todo = list(range(len(queue)))[::-1]
        while todo or running:
            while todo and len(running) < n:
                i = todo.pop()
                if time.time() > self.deadline:
                    results[i] = None
                    continue
                running[i] = self._spawn(queue[i])
            if not running:
                continue
            ready, _, _ = select.select([fd for _, fd, _ in running.values()], [], [], 1.0)
            now = time.time()
            for i in list(running):
                pid, fd, buf = running[i]
                if fd in ready:
                    d = os.read(fd, 1 << 16)
                    if d:
                        buf.append(d)
                        continue
                    os.close(fd)
                    os.waitpid(pid, 0)
                    try:
                        results[i] = pickle.loads(b"".join(buf))
                    except Exception:
                        results[i] = "the analysis of this case ended early"
                    del running[i]
                elif now > self.deadline + 60:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(fd)
                    results[i] = None
                    del running[i]
        for i, q in enumerate(queue):
            r = results[i]
            if isinstance(r, dict):
                self._absorb(r)
            else:
                self.undecided.append((q[0], r or "out of time"))
                self.cases.append((q[0], "undecided"))

    def _spawn(self, q):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            os.close(w)
            return pid, r, []
        code = 0
        try:
            os.close(r)
            self.violations, self.undecided, self.known, self.samples = [], [], [], []
            self.n_obl = self.n_nf = self.n_it = self.n_paths = 0
            self.cases, self.functions, self.modes, self.notes = [], set(), {}, []
            t = time.time()
            self._case(*q)
            for v in self.violations:
                v.detail = str(v.detail)
            d = dict(violations=[v.__dict__ for v in self.violations], undecided=self.undecided, known=self.known,
                     samples=self.samples, counts=(self.n_obl, self.n_nf, self.n_it, self.n_paths), cases=self.cases,
                     functions=self.functions, modes=self.modes, notes=self.notes, secs=time.time() - t)
            b = pickle.dumps(d)
            while b:
                k = os.write(w, b)
                b = b[k:]
            os.close(w)
        except BaseException:
            if os.environ.get("GCHECK_DEBUG"):
                traceback.print_exc()
            code = 1
        finally:
            os._exit(code)

    def _absorb(self, d):
        for v in d["violations"]:
            x = Violation.__new__(Violation)
            x.__dict__.update(v)
            self.violations.append(x)
        self.undecided += d["undecided"]
        self.known += [k for k in d["known"] if k not in self.known]
        self.samples += d["samples"][:1] if len(self.samples) < 12 else []
        a, b, c, e = d["counts"]
        self.n_obl += a
        self.n_nf += b
        self.n_it += c
        self.n_paths += e
        self.cases += d["cases"]
        self.functions |= d["functions"]
        for k, n in d["modes"].items():
            self.modes[k] = self.modes.get(k, 0) + n
        self.slow.append((d["secs"], d["cases"][0][0] if d["cases"] else "?"))
        for n in d["notes"]:
            if n not in self.notes:
                self.notes.append(n)

    def _case(self, title, body, entry, stubs, assume, fallback, max_paths, limit, modes, concrete_only, confirm):
        if time.time() > self.deadline:
            self.undecided.append((title, "out of time"))
            self.cases.append((title, "undecided"))
            return False
        todo = [] if concrete_only else [None]
        if fallback:
            todo += list(modes or CONCRETE)
        todo = [(m, False) for m in todo]
        limit = limit or (120 if self.tier == "quick" else 400)
        why = None
        deferred = None
        decided = 0
        stop = False
        for mode, directed in todo:
            if stop and not directed:
                continue
            res = self._run_mode(title, body, entry, stubs, assume, max_paths, min(limit, 60) if directed else limit, mode)
            kind = res[0]
            if kind == "incomplete":
                if directed:
                    continue
                if why is None:
                    why = res[1]
                if mode is None:
                    if fallback and len(res) > 2:
                        todo += [(m, True) for m in directed_modes(*res[2:])]
                    continue
                stop = True
                continue
            K = res[1]
            if mode is None and K.viol and K.looped and fallback:
                # the loop was summarized: what follows it is confirmed at fixed sizes
                why = "loop of symbolic length"
                continue
            if K.viol and stubs and confirm:
                return self._case(title, body, entry, None, assume, fallback, max_paths, limit, modes, concrete_only, False)
            if mode is None and K.viol and all(v.lib for v in K.viol) and fallback:
                # an error raised by a library operation at symbolic sizes is confirmed at fixed sizes
                deferred = K
                continue
            decided += 1
            self._merge(K)
            if K.viol:
                break
            if mode is None or (K.no_sizes):
                break
        else:
            if decided == 0 and deferred is not None:
                self._merge(deferred)
                decided += 1
        if decided == 0 and deferred is not None:
            self._merge(deferred)
            decided += 1
        if decided == 0:
            self.undecided.append((title, why or "not analysed"))
            self.cases.append((title, "undecided"))
            return False
        self.cases.append((title, "decided"))
        return True

    def _merge(self, K):
        self.n_obl += K.n_obl
        self.n_nf += K.n_nf
        self.n_it += K.n_it
        self.n_paths += K.n_paths
        self.functions |= K.functions
        m = "symbolic" if K.mode is None else "fixed"
        if K.no_sizes:
            m = "no sizes"
        self.modes[m] = self.modes.get(m, 0) + 1
        for w, d in K.undec:
            self.undecided.append((w, d))
        for v in K.viol:
            for name, pred in self.known_matchers:
                if pred(v):
                    if name not in self.known:
                        self.known.append(name)
                    break
            else:
                self.violations.append(v)
        if K.samples and len(self.samples) < 12:
            self.samples.append(K.samples[0])

    def _run_mode(self, title, body, entry, stubs, assume, max_paths, limit, mode):
        K = Case(self, title, entry, mode)
        gaps = [] if mode is None else None
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit, 5)
        try:
            def run(it):
                K.begin(it)
                try:
                    body(K)
                except Refuted:
                    pass
                except I.PyRaise as e:
                    K.raised(e)
                except X.LibError as e:
                    v = I.exc(e.cls, e.msg)
                    v.lib = True
                    K.raised(I.PyRaise(v, it.where(), it.stack()))
                finally:
                    K.functions |= set(it.calls)
                    K.looped = K.looped or bool(it.ctx.loop_records)
                K.n_paths += 1
                K.samples_(it)
            try:
                a = assume(K) if assume else ()
                I.explore(run, self.root, stubs, max_paths, a, gaps)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except (Incomplete, T.TooBig, T.TermError) as e:
            why = "%s" % e if isinstance(e, Incomplete) else "%s: %s" % (type(e).__name__, e)
            return ("incomplete", why, gaps, K.los) if gaps else ("incomplete", why)
        except Timeout:
            return ("incomplete", "time limit of %ds" % limit)
        except RecursionError:
            return ("incomplete", "nesting too deep")
        except MemoryError:
            return ("incomplete", "out of memory")
        except (KeyboardInterrupt, SystemExit):
            raise
        except Exception as e:
            if os.environ.get("GCHECK_DEBUG"):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return ("incomplete", "analyzer limitation (%s: %s at %s:%d)" % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return ("done", K)

    # ------------------------------------------------------------------ syntactic obligations
    def ok(self, n=1):
        self.n_obl += n
        self.n_nf += n

    def bad(self, rule, what, where, detail, **kw):
        self.n_obl += 1
        v = Violation(rule, what, where, detail, **kw)
        for name, pred in self.known_matchers:
            if pred(v):
                if name not in self.known:
                    self.known.append(name)
                return
        self.violations.append(v)

    def known_finding(self, key, pred):
        """pred(violation) tells whether a violation is the finding listed under this key."""
        try:
            lines = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
        except OSError:
            return
        head = "finding: property=%s key=%s " % (self.pid, key)
        for l in lines:
            if l.startswith(head):
                self.known_matchers.append(("%s: %s" % (key, l[len(head):]), pred))


def _alarm(sig, frm):
    raise Timeout()


class Case:
    def __init__(self, ck, title, entry, mode):
        self.ck, self.title, self.entry, self.mode = ck, title, entry, mode
        self.viol = []
        self.undec = []
        self.n_obl = self.n_nf = self.n_it = self.n_paths = 0
        self.functions = set()
        self.samples = []
        self.no_sizes = True
        self.sized = {}
        self.los = {}            # symbolic mode: name of a size -> (symbol, value in terms of it)
        self.looped = False
        self.it = None
        self._k = 0
        self._assume = ()

    def begin(self, it):
        self.it = it
        self.cur = None
        self._sample = None

    def samples_(self, it):
        if self._sample and len(self.samples) < 2:
            self.samples.append(self._sample)

    # ------------------------------------------------------------------ inputs
    def size(self, name, lo=1, conc=None):
        """A size: a symbol >= lo (lo 0 or 1), or in fixed-size mode a small number."""
        self.no_sizes = False
        if self.mode is None:
            s = T.sym(name, is_int=True, lo=0) if lo == 0 else T.size(name)
            self.los[name] = (s, max(lo - 1, 0), min(lo, 1))
            return s + max(lo - 1, 0)
        v = self.sized.get(name)
        if v is None:
            if name in self.mode:
                v = self.mode[name]
            elif conc is not None:
                v = conc
            else:
                d = self.mode["default"]
                v = d[len([k for k in self.sized]) % len(d)]
            v = max(v, lo)
            self.sized[name] = v
        return tt(v)

    def possible(self, mp):
        """The conditions of this partition can hold for this choice of symbols (False only if one is refuted)."""
        for a, v in self.it.ctx.assumed:
            r = norm(T.subst(T.of_atom(a), mp)).const
            if r is not None and (r != 0) != v:
                return False
        return True

    def int(self, t):
        """An integer argument with value t."""
        return X.mknum(tt(t), "int")

    def positive(self, name):
        """A positive real number."""
        return X.mknum(T.fun("exp", T.sym(name)), "float")

    def real(self, name, lo=None):
        return X.mknum(T.sym(name, lo=lo), "float")

    def isym(self, name, lo=None):
        return T.sym(name, is_int=True, lo=lo)

    def leaf(self, name, shape, **kw):
        return X.leaf_tensor(name, tuple(tt(s) for s in shape), **kw)

    def fresh(self, n):
        return T.fresh(tt(n))

    # ------------------------------------------------------------------ running
    def get(self, dotted):
        self.cur = self.cur or dotted
        return self.it.get(dotted)

    def call(self, f, *args, **kw):
        """Call 'module:name' or a value."""
        if isinstance(f, str):
            self.entry_now = f
            f = self.get(f)
        return self.it.call(f, list(args), kw)

    def lib(self, name):
        """A library function, e.g. 'torch.cat'."""
        from . import lib
        return lib.lib_value(self.it, name)

    def method(self, obj, name, *args, **kw):
        return self.it.call(self.it.getattr(obj, name), list(args), kw)

    def attr(self, obj, name):
        return self.it.getattr(obj, name)

    def try_call(self, f, *args, **kw):
        """('return', value) or ('raise', PyRaise)."""
        try:
            return ("return", self.call(f, *args, **kw))
        except I.PyRaise as e:
            return ("raise", e)
        except X.LibError as e:
            v = I.exc(e.cls, e.msg)
            v.lib = True
            return ("raise", I.PyRaise(v, self.it.where(), self.it.stack()))

    def events(self, *kinds):
        return [e for e in self.it.ctx.events if e["kind"] in kinds]

    def path(self):
        return ["%s%s" % ("" if v else "not ", T.show_atom(a)) for a, v in self.it.ctx.assumed]

    def path_terms(self):
        return tuple(T.of_atom(a) if v else ONE - T.of_atom(a) for a, v in self.it.ctx.assumed)

    # ------------------------------------------------------------------ verdicts
    def where_entry(self):
        e = self.entry or self.cur
        if not e:
            return "?"
        try:
            f = self.it.get(e)
            f = getattr(f, "func", f)
            if isinstance(f, I.Func):
                return "%s:%d %s" % (os.path.relpath(f.module.path, self.ck.root), f.node.lineno, f.qual)
            if isinstance(f, I.Class):
                return "%s %s" % (os.path.relpath(f.module.path, self.ck.root) if f.module else "?", f.name)
        except Exception:
            pass
        return e

    def violate(self, rule, what, detail, where=None, lib=False, stack=()):
        self.n_obl += 1
        v = Violation(rule, "%s: %s" % (self.title, what), where or self.where_entry(), detail, self.path(),
                      self.mode_name(), stack, sorted("%s:%d %s" % c for c in self.it.calls))
        v.lib = lib
        self.viol.append(v)
        raise Refuted()

    def mode_name(self):
        if self.mode is None:
            return "all sizes (symbolic)"
        return "sizes %s" % {k: v for k, v in self.sized.items()}

    def raised(self, e):
        v = e.val
        if v.name == "NotImplementedError" and not e.where:
            raise Incomplete("NotImplementedError")
        st = ["%s:%d %s" % s for s in (e.stack or ())]
        w = e.where
        try:
            self.violate("no-exception", "raises %s on valid input" % v.name,
                         "%s: %s" % (v.name, _msg(v)), where="%s:%d %s" % w if w and w[0] != "?" else None,
                         lib=getattr(v, "lib", False), stack=st)
        except Refuted:
            pass

    def good(self, how="normal form", n=1):
        self.n_obl += n
        if how == "identity test":
            self.n_it += n
        else:
            self.n_nf += n

    def undecided(self, what, why):
        self.n_obl += 1
        if os.environ.get("GCHECK_DEBUG"):
            why += " | when %s" % "; ".join(self.path())
        self.undec.append(("%s: %s" % (self.title, what), why))

    def require(self, cond, rule, what, detail="", where=None):
        if cond:
            self.good()
        else:
            self.violate(rule, what, detail, where)

    def expect_raise(self, cls, f, *args, what=None, **kw):
        k, v = self.try_call(f, *args, **kw)
        if k == "raise":
            if I.exc_matches(v.val, I.ExcClass(cls)):
                self.good()
                return v
            if v.val.name == "NotImplementedError":
                raise Incomplete("NotImplementedError")
            self.violate("raises-" + cls, what or "must raise %s" % cls,
                         "raises %s: %s" % (v.val.name, _msg(v.val)),
                         where="%s:%d %s" % v.where if v.where else None)
        self.violate("raises-" + cls, what or "must raise %s" % cls, "no exception is raised")

    def eq(self, got, want, what, rule="value", assume=(), fixed=None, tol=1e-6):
        got, want = X.norm(tt(got)), X.norm(tt(want))
        if got is want:
            self.good()
            return True
        r = T.same(got, want, trials=8 if self.ck.thorough else 5, assume=tuple(assume) + self.path_terms(),
                   fixed=fixed, tol=tol, seed=self.ck.seed)
        if r.ok:
            self.good(r.how)
            return True
        if r.how == "undecided":
            self.undecided(what, r.detail)
            return None
        self.violate(rule, what, "got %s, expected %s; %s" % (T.brief(got, 400), T.brief(want, 400), r.detail))

    def holds(self, terms, pred, what, rule="value", assume=(), tol=1e-6, want="", trials=None, vacuous=False):
        """pred(values) is (close to) true of the values of the terms: by identity testing."""
        terms = [X.norm(tt(t)) for t in terms]
        r = T.same_by(terms, pred, trials=trials or (10 if self.ck.thorough else 6),
                      assume=tuple(assume) + self.path_terms(), tol=tol, seed=self.ck.seed)
        if r.ok:
            self.good("identity test")
            return True
        if r.how == "undecided":
            if not vacuous:
                self.undecided(what, r.detail)
            return None
        self.violate(rule, what, "got %s%s; %s" % (", ".join(T.brief(t, 150) for t in terms[:4]),
                                                   ", expected %s" % want if want else "", r.detail))

    def tensor(self, got, shape, fn, what, rule="value", dtype=None, assume=(), tol=1e-6, enum=4):
        """got is a tensor of this shape whose content at every index is fn(index)."""
        self.shape(got, shape, what)
        if dtype is not None:
            self.require(got.dtype == dtype, "dtype", "%s has dtype %s" % (what, dtype), "it is %s" % got.dtype)
        if fn is None:
            return
        for idx in self.indices(shape, enum):
            w = fn(*idx)
            if w is None:
                continue
            a = ()
            if isinstance(w, tuple):
                w, a = w
            g = got.at(*idx)
            lab = "%s[%s]" % (what, ", ".join(T.brief(i, 20) for i in idx))
            if self._sample is None:
                self._sample = "%s: %s = %s on path %s" % (self.title, lab, T.brief(tt(w), 160), self.path())
            self.eq(g, w, lab, rule, assume=tuple(assume) + tuple(a), tol=tol)

    def shape(self, got, shape, what):
        if not isinstance(got, Tensor):
            self.violate("type", "%s is a tensor" % what, "it is %s" % (type_name(got),))
        shape = tuple(X.norm(tt(s)) for s in shape)
        if len(shape) != len(got.shape):
            self.violate("shape", "%s has shape %s" % (what, X.show_shape(shape)),
                         "it has shape %s" % X.show_shape(got.shape))
        for k, (a, b) in enumerate(zip(got.shape, shape)):
            if X.same_size(a, b):
                self.good()
                continue
            r = T.same(X.norm(tt(a)), b, assume=self.path_terms())
            if r.ok:
                self.good(r.how)
                continue
            if r.how == "undecided":
                self.undecided("%s shape" % what, r.detail)
                continue
            self.violate("shape", "%s has shape %s" % (what, X.show_shape(shape)),
                         "it has shape %s (axis %d)" % (X.show_shape(got.shape), k))

    def indices(self, shape, enum=4):
        """Index tuples: small fixed axes are enumerated, the others are generic."""
        import itertools
        ax = []
        shape = tuple(X.norm(tt(s)) for s in shape)
        for s in shape:
            c = s.const
            if c is not None and c <= enum:
                ax.append([tt(k) for k in range(int(c))])
            else:
                ax.append([None])
        for combo in itertools.product(*ax):
            yield tuple(T.fresh(s) if c is None else c for c, s in zip(combo, shape))


def _msg(v):
    try:
        return ", ".join(str(a) for a in v.args)
    except Exception:
        return str(v)


def type_name(v):
    if isinstance(v, I.Instance):
        return v.cls.name
    if isinstance(v, tuple):
        return "a tuple of %d" % len(v)
    return type(v).__name__


# ---------------------------------------------------------------------- running a property
def run_property(pid, tier, seed, root=None, verbose=False, out="/verif"):
    import importlib
    sys.setrecursionlimit(20000)
    ck = Ck(pid, tier, seed, root)
    mod = importlib.import_module("gcheck.props." + pid.lower())
    err = None
    try:
        warm(ck)
        mod.check(ck)
        ck.flush()
    except Exception as e:
        err = "%s: %s" % (type(e).__name__, e)
        traceback.print_exc()
    return finish(ck, mod, err, verbose, out)


def warm(ck):
    """Import the package once, so that the processes of the cases share parsed sources and library models."""
    def run(it):
        it.get("gconv.gnn:GConvSE2")
    try:
        I.explore(run, ck.root, None, 50, ())
    except Exception:
        pass


def finish(ck, mod, err, verbose, out):
    pid = ck.pid
    wall = time.time() - ck.t0
    seen = {}
    for v in ck.violations:
        seen.setdefault((v.rule, v.where, v.what), v)
    viol = list(seen.values())
    decided = [c for c in ck.cases if c[1] == "decided"]
    for k in ck.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if verbose:
        for t, w in sorted(ck.slow, reverse=True)[:8]:
            print("  %6.1f s  %s" % (t, w))
    if verbose or viol:
        for w, d in ck.undecided[:40]:
            print("  undecided: %s (%s)" % (w, d))
    rep = None
    if viol:
        os.makedirs(os.path.join(out, "replay"), exist_ok=True)
        rep = os.path.join(out, "replay", "%s.json" % pid)
        with open(rep, "w") as f:
            json.dump(dict(property=pid, tier=ck.tier, seed=ck.seed,
                           rerun="cd %s && python3 -m gcheck %s --tier %s" % (out, pid, ck.tier),
                           violations=[v.as_dict() for v in viol]), f, indent=1)
        for v in viol[:20]:
            print("  %s" % v.where)
            print("    rule %s; %s" % (v.rule, v.what))
            print("    %s" % v.detail)
            if v.path:
                print("    when %s" % "; ".join(v.path)[:600])
            print("    %s" % v.mode)
            for s in v.stack[-6:]:
                print("      at %s" % s)
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    doc = dict(
        property=pid, tier=ck.tier, seed=ck.seed, level="other",
        coverage=dict(
            explanation=(getattr(mod, "EXPLANATION", "") or "").strip(),
            obligations=ck.n_obl, discharged=ck.n_obl - len(viol) - len(ck.undecided),
            by_normal_form=ck.n_nf, by_identity_test=ck.n_it,
            undecided=[dict(obligation=w, reason=d) for w, d in ck.undecided][:60],
            trace_partitions=ck.n_paths, cases=len(ck.cases), cases_decided=len(decided),
            case_modes=ck.modes, case_titles=[c[0] for c in ck.cases][:400],
            functions_analysed=sorted("%s:%d %s" % f for f in ck.functions),
            rule=getattr(mod, "RULE", ""),
            samples=ck.samples[:8],
            known_findings=ck.known, **getattr(ck, "extra", {})),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + BASE_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    with open(os.path.join(out, "evidence", "%s.json" % pid), "w") as f:
        json.dump(doc, f, indent=1)
    print("%s: %d obligations (%d by normal form, %d by identity test), %d undecided, %d/%d cases, %d traces, "
          "%d violations, %.1f s" % (pid, ck.n_obl, ck.n_nf, ck.n_it, len(ck.undecided), len(decided),
                                     len(ck.cases), ck.n_paths, len(viol), wall))
    if viol:
        return 1
    if err:
        print("analysis error: %s" % err)
        return 2
    if ck.n_obl == 0:
        print("nothing could be analysed")
        return 2
    return 0


BASE_ASSUMPTIONS = [
    "Real arithmetic: floating-point rounding is not modelled.",
    "PyTorch, math and the other libraries do what the operation models in gcheck/ state.",
]
