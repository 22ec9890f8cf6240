"""Exact normal forms for the symbolic reals (rational functions over atoms).

An atom is a real-valued quantity: an input variable, an application of an uninterpreted
function, exp(B), log|P|, a q-th root, or the root of a prime.  A normal form (NF) is
num / prod(factor^k), num a sparse polynomial over atoms (rational exponents are allowed on atoms
known to be positive).  Two expressions that are equal as a consequence of field axioms,
exp(a+b)=exp(a)exp(b), log|ab|=log|a|+log|b|, sqrt(x)^2=x and exp(log x)=x (x>0) get a difference
whose numerator is the zero polynomial; the solver is then handed `0 != 0`.
"""
from fractions import Fraction as F
import mpmath

TERM_LIMIT = 60000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("id", "kind", "data", "pos", "name", "fp")


class NF:
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=()):
        self.num = num  # dict mono -> Fraction
        self.den = den  # sorted tuple of (fid, k)
        self._key = None

    def is_zero(self):
        return not self.num

    def const(self):
        """the rational value if this is a rational constant, else None"""
        if not self.num:
            return F(0)
        if self.den or len(self.num) != 1:
            return None
        (m, c), = self.num.items()
        return c if m == () else None

    def key(self):
        if self._key is None:
            self._key = (tuple(sorted(self.num.items())), self.den)
        return self._key


def _norm_exp(e):
    if isinstance(e, F) and e.denominator == 1:
        return e.numerator
    return e


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                out.append((x[0], _norm_exp(e)))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_pow(m, k):
    if k == 0:
        return ()
    return tuple((a, _norm_exp(e * k)) for a, e in m)


def poly_add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def poly_mul(p, q):
    if len(p) * len(q) > 40 * TERM_LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m)
            v = c1 * c2 if v is None else v + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > TERM_LIMIT:
        raise TooBig()
    return r


def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


class Alg:
    """One algebra context (atom and factor tables); a fresh one is used for every path."""

    def __init__(self, pos_oracle=None):
        self.atoms = []
        self._intern = {}
        self.factors = []  # fid -> poly
        self._fintern = {}
        self.pos_oracle = pos_oracle
        self._pos_cache = {}
        self.one = NF({(): F(1)})
        self.zero = NF({})

    # ------------------------------------------------------------------ atoms
    def atom(self, kind, key, data, pos, name):
        k = (kind, key)
        a = self._intern.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind, a.data, a.pos, a.name = kind, data, pos, name
            self.atoms.append(a)
            self._intern[k] = a
        return a

    def var(self, name, pos=False):
        return self.of_atom(self.atom("var", name, name, pos, name))

    def of_atom(self, a, e=1):
        return NF({((a.id, e),): F(1)})

    def const_nf(self, c):
        return NF({(): F(c)}) if c != 0 else self.zero

    def uf(self, fname, args, pos=False):
        # args: tuple of NF; intern by exact zero test against existing apps of same fname
        key = (fname, tuple(x.key() for x in args))
        a = self._intern.get(("uf", key))
        if a is not None:
            return self.of_atom(a)
        for b in self.atoms:
            if b.kind == "uf" and b.data[0] == fname and len(b.data[1]) == len(args):
                if all(self.sub(x, y).is_zero() for x, y in zip(args, b.data[1])):
                    self._intern[("uf", key)] = b
                    return self.of_atom(b)
        a = self.atom("uf", key, (fname, args), pos, f"{fname}#{len(self.atoms)}")
        return self.of_atom(a)

    # ------------------------------------------------------------------ factors
    def factor_id(self, poly):
        k = frozenset(poly.items())
        f = self._fintern.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(poly)
            self._fintern[k] = f
        return f

    def content(self, poly):
        """poly = c * mono * prim, prim with leading coefficient 1 and minimal exponents 0"""
        mins = {}
        n = len(poly)
        cnt = {}
        for m in poly:
            for a, e in m:
                cnt[a] = cnt.get(a, 0) + 1
                if a not in mins or e < mins[a]:
                    mins[a] = e
        for a in mins:
            if cnt[a] < n and mins[a] > 0:
                mins[a] = 0
        mono = tuple(sorted((a, e) for a, e in mins.items() if e != 0))
        inv = mono_pow(mono, -1)
        shifted = {mono_mul(m, inv): c for m, c in poly.items()}
        lead = max(shifted)
        c = shifted[lead]
        prim = {m: v / c for m, v in shifted.items()}
        return c, mono, prim

    # ------------------------------------------------------------------ field ops
    def add(self, x, y):
        if not x.num:
            return y
        if not y.num:
            return x
        if x.den == y.den:
            return self.mk(poly_add(x.num, y.num), x.den)
        dx, dy = dict(x.den), dict(y.den)
        nx, ny = x.num, y.num
        den = {}
        for f in set(dx) | set(dy):
            k = max(dx.get(f, 0), dy.get(f, 0))
            den[f] = k
            for _ in range(k - dx.get(f, 0)):
                nx = poly_mul(nx, self.factors[f])
            for _ in range(k - dy.get(f, 0)):
                ny = poly_mul(ny, self.factors[f])
        return self._fix(poly_add(nx, ny), tuple(sorted(den.items())))

    def _fix(self, num, den):
        """reduce radicals/primes in num, then build"""
        bad = None
        for m in num:
            for a, e in m:
                k = self.atoms[a].kind
                if (k == "rad" and not (0 <= e < self.atoms[a].data[1])) or (
                    k == "prime" and not (0 < e < 1)
                ):
                    bad = True
                    break
            if bad:
                break
        if not bad:
            return self.mk(num, den)
        acc = self.zero
        plain = {}
        for m, c in num.items():
            rest = []
            extra = None
            for a, e in m:
                at = self.atoms[a]
                if at.kind == "prime":
                    fl = e.__floor__()
                    fr = _norm_exp(F(e) - fl)
                    c = c * F(at.data) ** fl
                    if fr != 0:
                        rest.append((a, fr))
                elif at.kind == "rad" and not (0 <= e < at.data[1]):
                    base, q = at.data
                    k = e // q
                    r = e - k * q
                    if r:
                        rest.append((a, _norm_exp(r)))
                    t = self.powi(base, int(k))
                    extra = t if extra is None else self.mul(extra, t)
                else:
                    rest.append((a, e))
            mm = tuple(rest)
            if extra is None:
                v = plain.get(mm, F(0)) + c
                if v == 0:
                    plain.pop(mm, None)
                else:
                    plain[mm] = v
            else:
                acc = self.add(acc, self.mul(NF({mm: c}), extra))
        out = self.mk(plain, den)
        if acc.num:
            d = NF({(): F(1)}, den)
            out = self.add(out, self.mul(acc, d) if den else acc)
        return out

    def mk(self, num, den, cancel=True):
        if not num:
            return self.zero
        if den and cancel:
            nd = []
            for f, k in den:
                fp = self.factors[f]
                while k > 0:
                    q = self.divide(num, fp)
                    if q is None:
                        break
                    num = q
                    k -= 1
                if k:
                    nd.append((f, k))
            den = tuple(nd)
        return NF(num, den)

    def divide(self, p, d):
        """exact division p/d of (Laurent) polynomials or None; d primitive (lead coeff 1)"""
        if len(p) < 2 or len(p) < len(d) // 2:
            return None
        c, mono, prim = self.content(p)
        lead = max(d)
        atoms_d = {a for m in d for a, _ in m}
        atoms_p = {a for m in prim for a, _ in m}
        if not atoms_d <= atoms_p:
            return None
        if len(prim) > 3000:
            return None
        rem = dict(prim)
        quo = {}
        inv = mono_pow(lead, -1)
        steps = 0
        # graded by max() on tuples is not a monomial order; use a weight order instead
        order = sorted(atoms_p)

        def wkey(m):
            dd = dict(m)
            return tuple(dd.get(a, 0) for a in order)

        lead = max(d, key=wkey)
        lc = d[lead]
        inv = mono_pow(lead, -1)
        while rem:
            m = max(rem, key=wkey)
            t = mono_mul(m, inv)
            if any(e < 0 for _, e in t):
                return None
            cc = rem[m] / lc
            quo[t] = cc
            for dm, dc in d.items():
                mm = mono_mul(dm, t)
                v = rem.get(mm, 0) - dc * cc
                if v == 0:
                    rem.pop(mm, None)
                else:
                    rem[mm] = v
            steps += 1
            if steps > 600:
                return None
        return {mono_mul(m, mono): v * c for m, v in quo.items()}

    def neg(self, x):
        return NF({m: -c for m, c in x.num.items()}, x.den)

    def sub(self, x, y):
        return self.add(x, self.neg(y))

    def mul(self, x, y):
        if not x.num or not y.num:
            return self.zero
        num = poly_mul(x.num, y.num)
        if x.den or y.den:
            d = dict(x.den)
            for f, k in y.den:
                d[f] = d.get(f, 0) + k
            den = tuple(sorted(d.items()))
        else:
            den = ()
        return self._fix(num, den)

    def inv(self, x):
        if not x.num:
            raise ZeroDivisionError
        num = {(): F(1)}
        if len(x.num) == 1:
            (m, c), = x.num.items()
            num = {mono_pow(m, -1): 1 / c}
            den = {}
        else:
            c, mono, prim = self.content(x.num)
            num = {mono_pow(mono, -1): 1 / c}
            den = {self.factor_id(prim): 1}
        for f, k in x.den:
            for _ in range(k):
                num = poly_mul(num, self.factors[f])
        return self._fix(num, tuple(sorted(den.items())))

    def div(self, x, y):
        return self.mul(x, self.inv(y))

    def powi(self, x, k):
        if k < 0:
            return self.powi(self.inv(x), -k)
        if k == 0:
            return self.one
        if len(x.num) == 1:
            (m, c), = x.num.items()
            return self._fix({mono_pow(m, k): c ** k}, tuple((f, j * k) for f, j in x.den))
        r = self.one
        b = x
        while k:
            if k & 1:
                r = self.mul(r, b)
            k >>= 1
            if k:
                b = self.mul(b, b)
        return r

    # ------------------------------------------------------------------ positivity
    def poly_pos(self, poly):
        """is this polynomial known to be > 0?"""
        if not poly:
            return False
        k = frozenset(poly.items())
        r = self._pos_cache.get(k)
        if r is not None:
            return r
        r = all(c > 0 for c in poly.values()) and all(
            self.atoms[a].pos or (isinstance(e, int) and e % 2 == 0 and len(poly) == 1)
            for m in poly for a, e in m
        )
        if not r and self.pos_oracle is not None:
            self._pos_cache[k] = False  # cut recursion
            r = bool(self.pos_oracle(NF(dict(poly))))
        self._pos_cache[k] = r
        return r

    def atom_pos(self, aid):
        a = self.atoms[aid]
        if a.pos:
            return True
        return self.poly_pos({((aid, 1),): F(1)})

    # ------------------------------------------------------------------ transcendental
    def powq(self, x, e):
        """x ** e, e a Fraction (x assumed >= 0 when e is not an integer)"""
        e = F(e)
        if e.denominator == 1:
            return self.powi(x, int(e))
        if not x.num:
            return self.zero
        c, mono, prim = self.content(x.num)
        out_c = F(1)
        out_m = ()
        if c < 0:
            c = -c
            prim = {m: -v for m, v in prim.items()}
        # rational constant
        for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in _primes(n).items():
                a = self.atom("prime", p, p, True, f"prime{p}")
                out_m = mono_mul(out_m, ((a.id, _norm_exp(e * k * sgn)),))
        rest_m = []
        for a, k in mono:
            if self.atoms[a].kind == "rad":
                rest_m.append((a, k))
            elif self.atom_pos(a):
                out_m = mono_mul(out_m, ((a, _norm_exp(e * k)),))
            else:
                rest_m.append((a, k))
        outn = self._fix({out_m: out_c}, ())
        pieces = []  # (NF base, exponent)
        rest = NF({tuple(rest_m): F(1)})
        if len(prim) > 1:
            if self.poly_pos(prim):
                pieces.append((NF(prim), e))
            else:
                rest = self.mul(rest, NF(prim))
        elif list(prim.values())[0] < 0:
            rest = self.neg(rest)
        for f, k in x.den:
            if self.poly_pos(self.factors[f]):
                pieces.append((NF(self.factors[f]), -e * k))
            else:
                rest = self.mul(rest, NF({(): F(1)}, ((f, k),)))
        if rest.const() != 1:
            pieces.append((rest, e))
        for base, ex in pieces:
            q = ex.denominator
            if q == 1:
                outn = self.mul(outn, self.powi(base, int(ex)))
                continue
            r = self.rad(base, q)
            outn = self.mul(outn, self.powi(r, ex.numerator))
        return outn

    def rad(self, base, q):
        pos = self.poly_pos(base.num) and all(self.poly_pos(self.factors[f]) for f, _ in base.den)
        a = self.atom("rad", (base.key(), q), (base, q), pos, f"root{q}_{len(self.atoms)}")
        return self.of_atom(a)

    def log(self, x):
        """log|x|"""
        if not x.num:
            raise ZeroDivisionError
        c, mono, prim = self.content(x.num)
        out = self.zero
        c = abs(c)
        for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in _primes(n).items():
                a = self.atom("log", ("prime", p), self.const_nf(p), False, f"log({p})")
                out = self.add(out, NF({((a.id, 1),): F(k * sgn)}))
        for aid, k in mono:
            a = self.atoms[aid]
            k = F(k)
            if a.kind == "exp":
                out = self.add(out, self.mul(self.const_nf(k), a.data))
            elif a.kind == "rad":
                base, q = a.data
                out = self.add(out, self.mul(self.const_nf(k / q), self.log(base)))
            elif a.kind == "prime":
                b = self.atom("log", ("prime", a.data), self.const_nf(a.data), False, f"log({a.data})")
                out = self.add(out, NF({((b.id, 1),): k}))
            else:
                b = self._logatom({((aid, 1),): F(1)})
                out = self.add(out, NF({((b.id, 1),): k}))
        if len(prim) > 1:
            b = self._logatom(prim)
            out = self.add(out, NF({((b.id, 1),): F(1)}))
        for f, k in x.den:
            b = self._logatom(self.factors[f])
            out = self.add(out, NF({((b.id, 1),): F(-k)}))
        return out

    def _logatom(self, poly):
        if poly[max(poly)] < 0:
            poly = {m: -c for m, c in poly.items()}
        n = NF(poly)
        return self.atom("log", n.key(), n, False, f"log_{len(self.atoms)}")

    def exp(self, x):
        if not x.num:
            return self.one
        out = self.one
        for m, c in x.num.items():
            if not x.den and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == "log":
                arg = self.atoms[m[0][0]].data
                if arg.const() is None and not self.poly_pos(arg.num):
                    neg = self.neg(arg)
                    if self.poly_pos(neg.num):
                        arg = neg
                    elif c.denominator == 1 and c.numerator % 2 == 0:
                        out = self.mul(out, self.powi(arg, c.numerator))
                        continue
                if self.poly_pos(arg.num) or arg.const() is not None:
                    out = self.mul(out, self.powq(arg, c))
                    continue
            base = NF({m: F(1)}, x.den)
            if c.denominator != 1 or True:
                a = self.atom("exp", base.key(), base, True, f"exp_{len(self.atoms)}")
                out = self.mul(out, NF({((a.id, _norm_exp(c)),): F(1)}))
        return out

    def fn(self, name, x):
        return self.uf("@" + name, (x,))

    # ------------------------------------------------------------------ derivative
    def diff(self, x, vname, memo=None):
        if memo is None:
            memo = {}
        # d(num/den) = (dnum - num * sum k f'/f)/den
        dn = self._dpoly(x.num, vname, memo)
        out = self.mul(dn, NF({(): F(1)}, x.den)) if x.den else dn
        for f, k in x.den:
            df = self._dpoly(self.factors[f], vname, memo)
            if df.num:
                t = self.mul(self.mul(x, df), NF({(): F(-k)}, ((f, 1),)))
                out = self.add(out, t)
        return out

    def _dpoly(self, p, vname, memo):
        acc = self.zero
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                da = self._datom(a, vname, memo)
                if da.num:
                    mm = list(m)
                    if e == 1:
                        del mm[i]
                    else:
                        mm[i] = (a, _norm_exp(e - 1))
                    acc = self.add(acc, self.mul(self._fix({tuple(mm): c * e}, ()), da))
        return acc

    def _datom(self, aid, vname, memo):
        if aid in memo:
            return memo[aid]
        a = self.atoms[aid]
        if a.kind == "var":
            r = self.one if a.data == vname else self.zero
        elif a.kind == "exp":
            r = self.mul(self.of_atom(a), self.diff(a.data, vname, memo))
        elif a.kind == "log":
            r = self.div(self.diff(a.data, vname, memo), a.data)
        elif a.kind == "rad":
            base, q = a.data
            db = self.diff(base, vname, memo)
            r = self.div(self.mul(self.mul(self.const_nf(F(1, q)), self.of_atom(a)), db), base) if db.num else self.zero
        elif a.kind == "prime":
            r = self.zero
        else:
            ds = [self.diff(y, vname, memo) for y in a.data[1]]
            if all(not d.num for d in ds):
                r = self.zero
            else:
                raise NotImplementedError("derivative of an uninterpreted function")
        memo[aid] = r
        return r

    # ------------------------------------------------------------------ info
    def atoms_of(self, x, acc=None):
        if acc is None:
            acc = set()
        todo = set()
        for m in x.num:
            for a, _ in m:
                todo.add(a)
        for f, _ in x.den:
            for m in self.factors[f]:
                for a, _ in m:
                    todo.add(a)
        for a in todo:
            if a in acc:
                continue
            acc.add(a)
            at = self.atoms[a]
            if at.kind in ("exp", "log"):
                self.atoms_of(at.data, acc)
            elif at.kind == "rad":
                self.atoms_of(at.data[0], acc)
            elif at.kind == "uf":
                for y in at.data[1]:
                    self.atoms_of(y, acc)
        return acc

    def is_ground(self, x):
        return not any(self.atoms[a].kind in ("var", "uf") for a in self.atoms_of(x))

    def evalf(self, x, env, memo=None):
        if memo is None:
            memo = {}
        s = self._evalpoly(x.num, env, memo)
        for f, k in x.den:
            s = s / self._evalpoly(self.factors[f], env, memo) ** k
        return s

    def _evalpoly(self, p, env, memo):
        s = mpmath.mpf(0)
        for m, c in p.items():
            t = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                v = self._evalatom(a, env, memo)
                if isinstance(e, int):
                    t = t * v ** e
                else:
                    t = t * v ** (mpmath.mpf(e.numerator) / e.denominator)
            s += t
        return s

    def _evalatom(self, aid, env, memo):
        if aid in memo:
            return memo[aid]
        a = self.atoms[aid]
        if a.kind == "var":
            r = env[a.data]
        elif a.kind == "exp":
            r = mpmath.exp(self.evalf(a.data, env, memo))
        elif a.kind == "log":
            r = mpmath.log(abs(self.evalf(a.data, env, memo)))
        elif a.kind == "rad":
            b = self.evalf(a.data[0], env, memo)
            r = mpmath.root(b, a.data[1]) if b >= 0 else mpmath.mpf("nan")
        elif a.kind == "prime":
            r = mpmath.mpf(a.data)
        else:
            r = env["$uf"](a.data[0], [self.evalf(y, env, memo) for y in a.data[1]])
        memo[aid] = r
        return r
