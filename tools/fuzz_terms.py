"""Differential test of the term engine: random index terms built through the smart constructors against plain integers."""
import random
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from gcheck import terms as T  # noqa: E402
from gcheck.terms import tt  # noqa: E402


class Bad(Exception):
    pass


def run(seed, verbose=False):
    rng = random.Random(seed)
    LO = {"N": 1, "M": 2, "Z": None}
    syms = {n: T.sym(n + "z%d" % seed, is_int=True, lo=lo) for n, lo in LO.items()}
    lf = T.Leaf("w%d" % seed, is_int=True)

    def leafval(*k):
        return (hash(("w",) + tuple(int(x) for x in k)) % 7) - 3
    ivs = []

    def newiv(bound=None):
        k = rng.randrange(4)
        s, f = [(tt(rng.randint(1, 5)), None), (syms["N"], "N"), (syms["M"], "M"), (syms["N"] * syms["M"], "NM")][k]
        c = s.const
        v = T.fresh(s)
        size = (lambda e, c=c: c) if f is None else (lambda e, f=f: e[f] if f in e else e["N"] * e["M"])
        return v, size
    for k in range(3):
        v, size = newiv()
        ivs.append((v, "i%d" % k, size))

    def expr(d, vs):
        k = rng.randrange(17) if d > 0 else rng.randrange(4)
        if k == 0:
            c = rng.randint(-3, 6)
            return tt(c), lambda e: c
        if k == 1:
            n = rng.choice(list(syms))
            return syms[n], lambda e: e[n]
        if k in (2, 3):
            v, n, _ = rng.choice(vs)
            return v, lambda e: e[n]
        a, fa = expr(d - 1, vs)
        if k == 4:
            b, fb = expr(d - 1, vs)
            return a + b, lambda e: fa(e) + fb(e)
        if k == 5:
            b, fb = expr(d - 1, vs)
            return a - b, lambda e: fa(e) - fb(e)
        if k == 6:
            b, fb = expr(d - 2, vs)
            return a * b, lambda e: fa(e) * fb(e)
        if k in (7, 8, 9, 10):
            if rng.random() < 0.6:
                c = rng.randint(1, 5)
                b, fb = tt(c), lambda e: c
            else:
                n = rng.choice(("N", "M", "NM"))
                b = syms["N"] * syms["M"] if n == "NM" else syms[n]
                fb = (lambda e: e["N"] * e["M"]) if n == "NM" else (lambda e: e[n])
            if k in (7, 8):
                return T.floordiv(a, b), lambda e: fa(e) // fb(e)
            return T.mod(a, b), lambda e: fa(e) % fb(e)
        b, fb = expr(d - 1, vs)
        if k == 11:
            return T.lt(a, b), lambda e: int(fa(e) < fb(e))
        if k == 12:
            return T.eq(a, b), lambda e: int(fa(e) == fb(e))
        if k == 13:
            c, fc = expr(d - 1, vs)
            g, fg = expr(d - 1, vs)
            return T.ite(T.le(a, b), c, g), lambda e: fc(e) if fa(e) <= fb(e) else fg(e)
        if k == 14:
            return T.elem(lf, a, b), lambda e: leafval(fa(e), fb(e))
        if k == 15:   # sum over a new variable
            v, size = newiv()
            n = "s%d_%d" % (d, rng.randrange(10 ** 6))
            c, fc = expr(d - 1, vs + [(v, n, size)])
            return T.sum_over([v], c), lambda e: sum(fc(dict(e, **{n: j})) for j in range(size(e)))
        if k == 16:   # through a closed lambda
            v, size = newiv()
            n = "l%d_%d" % (d, rng.randrange(10 ** 6))
            c, fc = expr(d - 1, vs + [(v, n, size)])
            # apply to another variable of the same range
            l = T.lam((T._iv_size[v.poly[0][0][0][0]],), lambda x: T.subst(c, {v: x}))
            w, m, sw = rng.choice(vs)
            sz = T._iv_size[v.poly[0][0][0][0]]
            arg = T.mod(w, sz)
            return T.apply_lam(l, (arg,)), lambda e: fc(dict(e, **{n: e[m] % size(e)}))
        raise Bad

    t, f = expr(4, ivs)
    for _ in range(6):
        e = {"N": rng.randint(1, 4), "M": rng.randint(2, 5), "Z": rng.randint(-3, 4)}
        for v, n, size in ivs:
            e[n] = rng.randrange(size(e))
        want = f(e)
        mp = {syms[k]: tt(e[k]) for k in syms}
        mp.update({v: tt(e[n]) for v, n, _ in ivs})
        # sizes first: summation ranges; then leaf entries
        g = T.subst(t, mp)
        g = T.subst(g, {}, leaf={lf: lambda i, j: tt(leafval(i.const, j.const))})
        if g.const is None or g.const != want:
            print("seed", seed, "term", t, "\n env", e, "\n got", g, "want", want)
            return False
    return True


if __name__ == "__main__":
    a, b = int(sys.argv[1]), int(sys.argv[2])
    bad = 0
    os.environ.setdefault("PYTHONHASHSEED", "0")
    for s in range(a, b):
        try:
            ok = run(s)
        except T.__dict__.get("Undefined", Bad) as ex:
            print("seed", s, "undefined", ex)
            ok = True
        bad += not ok
        if bad > 5:
            break
    print("bad", bad)
