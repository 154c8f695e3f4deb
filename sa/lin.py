"""Linear-relational numeric domain: integer linear expressions over symbols,
conjunctions of linear (in)equalities, entailment by exact rational simplex.

This is the polyhedra domain in constraint form; products of symbols are interned
as product symbols so the domain stays linear (with a few product lemmas)."""
from math import gcd


class L:
    """immutable linear expression  c + sum d[s]*s  (integer coefficients)"""
    __slots__ = ('c', 'd', '_h')

    def __init__(s, c=0, d=None):
        s.c = c
        s.d = d if d is not None else {}
        s._h = None

    def __add__(a, b):
        if isinstance(b, int):
            return L(a.c + b, a.d)
        if not b.d:
            return L(a.c + b.c, a.d)
        if not a.d:
            return L(a.c + b.c, b.d)
        d = dict(a.d)
        for k, v in b.d.items():
            w = d.get(k, 0) + v
            if w:
                d[k] = w
            else:
                d.pop(k, None)
        return L(a.c + b.c, d)

    __radd__ = __add__

    def __neg__(a):
        return L(-a.c, {k: -v for k, v in a.d.items()})

    def __sub__(a, b):
        if isinstance(b, int):
            return L(a.c - b, a.d)
        return a + (-b)

    def __rsub__(a, b):
        return (-a) + b

    def scale(a, k):
        if k == 0:
            return L(0)
        if k == 1:
            return a
        return L(a.c * k, {s: v * k for s, v in a.d.items()})

    def isconst(a):
        return not a.d

    def key(a):
        return (a.c, tuple(sorted(a.d.items())))

    def __hash__(a):
        if a._h is None:
            a._h = hash((a.c, frozenset(a.d.items())))
        return a._h

    def __eq__(a, b):
        if isinstance(b, int):
            return not a.d and a.c == b
        return isinstance(b, L) and a.c == b.c and a.d == b.d

    def __repr__(a):
        o = []
        for k, v in sorted(a.d.items()):
            nm = SYM.names[k]
            o.append(('+' if v > 0 else '-') + ('' if abs(v) == 1 else '%d*' % abs(v)) + nm)
        if a.c or not o:
            o.append('%+d' % a.c)
        r = ''.join(o)
        return r[1:] if r[0] == '+' else r


def C(n):
    return L(n)


class SymTab:
    def __init__(s):
        s.names = []
        s.prod = {}      # sym -> tuple of base syms (sorted)
        s.prodi = {}     # tuple -> sym
        s.intern = {}    # hash-consing table for uninterpreted terms: key -> sym
        s.bounds = []    # initial (lo,hi)
        s.defs = {}      # sym -> definition key (for diagnostics / rewriting)

    def new(s, name, lo=None, hi=None):
        i = len(s.names)
        s.names.append('%s#%d' % (name, i))
        s.bounds.append((lo, hi))
        return i

    def sym(s, name, lo=None, hi=None):
        return L(0, {s.new(name, lo, hi): 1})

    def term(s, key, name, lo=None, hi=None):
        """hash-consed uninterpreted term"""
        i = s.intern.get(key)
        if i is None:
            i = s.new(name, lo, hi)
            s.intern[key] = i
            s.defs[i] = key
        return L(0, {i: 1})

    def mono(s, syms):
        if len(syms) == 1:
            return syms[0]
        t = tuple(sorted(syms))
        i = s.prodi.get(t)
        if i is None:
            lo = None
            nn = all(s.bounds[x][0] is not None and s.bounds[x][0] >= 0 for x in t)
            hi = None
            if nn:
                lo = 1
                hi = 1
                for x in t:
                    lo *= s.bounds[x][0]
                    hi = None if hi is None or s.bounds[x][1] is None else hi * s.bounds[x][1]
            i = s.new('(' + '*'.join(s.names[x] for x in t) + ')', lo, hi)
            s.prod[i] = t
            s.prodi[t] = i
        return i


SYM = SymTab()


def mul(a, b):
    if a.isconst():
        return b.scale(a.c)
    if b.isconst():
        return a.scale(b.c)
    r = L(a.c * b.c)
    if a.c:
        r = r + L(0, {k: v * a.c for k, v in b.d.items()})
    if b.c:
        r = r + L(0, {k: v * b.c for k, v in a.d.items()})
    for k1, v1 in a.d.items():
        t1 = SYM.prod.get(k1, (k1,))
        for k2, v2 in b.d.items():
            t2 = SYM.prod.get(k2, (k2,))
            r = r + L(0, {SYM.mono(t1 + t2): v1 * v2})
    return r


STATS = {'lp': 0, 'prove': 0, 'fast': 0, 'lp_t': 0.0}


class Infeasible(Exception):
    pass


class Store:
    """conjunction of linear constraints"""
    __slots__ = ('sub', 'ineq', 'bnd', 'cache', 'dead', 'lemmas', 'wit')

    def __init__(s):
        s.sub = {}
        s.ineq = {}     # L -> True (ordered set)
        s.bnd = {}      # sym -> (lo,hi) overriding SYM.bounds
        s.cache = {}
        s.dead = False
        s.lemmas = None
        s.wit = ()      # solutions of slices of the store, to refute entailments quickly

    def copy(s):
        t = Store()
        t.sub = dict(s.sub)
        t.ineq = dict(s.ineq)
        t.bnd = dict(s.bnd)
        t.dead = s.dead
        t.cache = dict(s.cache)
        t.wit = s.wit
        return t

    # -- normal form
    def norm(s, e):
        sub = s.sub
        if not sub:
            return e
        for k in e.d:
            if k in sub or (k in SYM.prod and any(x in sub for x in SYM.prod[k])):
                break
        else:
            return e
        r = L(e.c)
        for k, v in e.d.items():
            if k in sub:
                r = r + sub[k].scale(v)
            elif k in SYM.prod and any(x in sub for x in SYM.prod[k]):
                p = L(1)
                for x in SYM.prod[k]:
                    p = mul(p, sub[x] if x in sub else L(0, {x: 1}))
                r = r + s.norm(p).scale(v)
            else:
                r = r + L(0, {k: v})
        return r

    def bounds1(s, k):
        b = s.bnd.get(k)
        return b if b is not None else SYM.bounds[k]

    def interval(s, e):
        e = s.norm(e)
        lo = hi = e.c
        for k, v in e.d.items():
            a, b = s.bounds1(k)
            if v < 0:
                a, b = b, a
            if lo is not None:
                lo = None if a is None else lo + v * a
            if hi is not None:
                hi = None if b is None else hi + v * b
            if lo is None and hi is None:
                break
        return lo, hi

    # -- adding facts
    def _tighten(s, e):
        """e>=0, normalised; integer-tighten"""
        g = 0
        for v in e.d.values():
            g = gcd(g, v)
        if g > 1:
            return L(e.c // g, {k: v // g for k, v in e.d.items()})
        return e

    def add_ge0(s, e):
        """assume e >= 0"""
        e = s.norm(e)
        if e.isconst():
            if e.c < 0:
                s.dead = True
            return
        e = s._tighten(e)
        s.cache = {}
        if s.wit:
            s.keepwit(e)
        if len(e.d) == 1:
            (k, v), = e.d.items()
            lo, hi = s.bounds1(k)
            if v > 0:          # k >= -c/v
                n = -(e.c // v)
                if lo is None or n > lo:
                    lo = n
            else:              # k <= c/(-v)
                n = e.c // (-v)
                if hi is None or n < hi:
                    hi = n
            s.bnd[k] = (lo, hi)
            if lo is not None and hi is not None:
                if lo > hi:
                    s.dead = True
                elif lo == hi:
                    s.add_eq0(L(-lo, {k: 1}))
            return
        if e in s.ineq:
            return
        ne = L(-e.c, {k: -v for k, v in e.d.items()})
        # opposite constraint with sum zero => equality
        s.ineq[e] = True
        if ne in s.ineq:
            s.add_eq0(e)

    def add_eq0(s, e):
        e = s.norm(e)
        if e.isconst():
            if e.c != 0:
                s.dead = True
            return
        g = 0
        for v in e.d.values():
            g = gcd(g, v)
        if e.c % g:
            s.dead = True
            return
        if g > 1:
            e = L(e.c // g, {k: v // g for k, v in e.d.items()})
        cand = [k for k, v in e.d.items() if abs(v) == 1 and k not in SYM.prod and
                not any(k in SYM.prod.get(j, ()) for j in e.d if j != k)]
        if not cand:
            cand = [k for k, v in e.d.items() if abs(v) == 1 and
                    not any(k in SYM.prod.get(j, ()) for j in e.d if j != k)]
        if not cand:
            s.cache = {}
            s.ineq[e] = True
            s.ineq[-e] = True
            return
        k = max(cand)
        v = e.d[k]
        d = dict(e.d)
        del d[k]
        rhs = L(e.c, d)
        if v == 1:
            rhs = -rhs
        s._subst(k, rhs)

    def keepwit(s, e):
        keep = []
        for sol in s.wit:
            t = e.c
            n = 0
            for k, v in e.d.items():
                x = sol.get(k)
                if x is None:
                    n += 1
                else:
                    t += v * x
            if n == len(e.d) or n == 0 and t >= 0:
                keep.append(sol)
        if len(keep) != len(s.wit):
            s.wit = tuple(keep)

    def _subst(s, k, rhs):
        s.cache = {}
        if s.wit:
            keep = []
            for sol in s.wit:
                x = sol.get(k)
                t = rhs.c
                n = 0
                for j, v in rhs.d.items():
                    y = sol.get(j)
                    if y is None:
                        n += 1
                    else:
                        t += v * y
                if x is None and n == len(rhs.d) and rhs.d:
                    keep.append(sol)
                elif n == 0 and (x is None and not rhs.d or x is not None and t == x):
                    keep.append(sol)
            s.wit = tuple(keep)
        one = {k: rhs}
        old = s.sub
        ns = {}
        tmp = Store()
        tmp.sub = one
        for a, b in old.items():
            ns[a] = tmp.norm(b)
        ns[k] = rhs
        s.sub = ns
        lo, hi = s.bounds1(k)
        iq = s.ineq
        changed = [e for e in iq if any(x == k or k in SYM.prod.get(x, ()) for x in e.d)]
        for e in changed:
            del iq[e]
        if lo is not None:
            s.add_ge0(rhs - lo)
        if hi is not None:
            s.add_ge0(L(hi) - rhs)
        for e in changed:
            s.add_ge0(s.norm(e))

    # -- queries
    def _slice(s, e):
        """constraints transitively sharing symbols with e"""
        syms = set(e.d)
        for k in list(syms):
            syms.update(SYM.prod.get(k, ()))
        rest = list(s.ineq)
        picked = []
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                if any(k in syms for k in c.d):
                    picked.append(c)
                    for k in c.d:
                        if k not in syms:
                            syms.add(k)
                            ch = True
                else:
                    nr.append(c)
            rest = nr
        return picked, syms

    def lemmas_for(s, cons, syms):
        """product lemmas: for product symbols x*y occurring, multiply known facts"""
        prods = [k for k in syms if k in SYM.prod and len(SYM.prod[k]) == 2]
        if not prods:
            return []
        out = []
        factors = set()
        for p in prods:
            factors.update(SYM.prod[p])
        pset = set(prods)
        for y in factors:
            lo, hi = s.bounds1(y)
            ly = L(0, {y: 1})
            # facts to multiply: bounds of partner and linear constraints mentioning a partner
            partners = set()
            for p in prods:
                t = SYM.prod[p]
                if t[0] == y:
                    partners.add(t[1])
                if t[1] == y:
                    partners.add(t[0])
            facts = []
            for x in partners:
                a, b = s.bounds1(x)
                lx = L(0, {x: 1})
                if a is not None:
                    facts.append(lx - a)
                if b is not None:
                    facts.append(L(b) - lx)
            for c in cons:
                if any(x in c.d for x in partners) and not any(k in SYM.prod for k in c.d):
                    facts.append(c)
            for f in facts:
                for g in ((ly - lo) if lo is not None else None, (L(hi) - ly) if hi is not None else None):
                    if g is None:
                        continue
                    r = s.norm(mul(f, g))
                    if all((k not in SYM.prod) or k in pset for k in r.d):
                        out.append(r)
        return out

    def feasible_with(s, extra):
        """is store /\\ all(e>=0 for e in extra) rationally feasible (after slicing)?"""
        if s.dead:
            return False
        ex = []
        for e in extra:
            e = s.norm(e)
            if e.isconst():
                if e.c < 0:
                    return False
                continue
            e = s._tighten(e)
            lo, hi = s.interval(e)
            if hi is not None and hi < 0:
                return False
            ex.append(e)
        if not ex:
            return True
        for sol in s.wit:
            # a known solution of the store that also satisfies the extra constraints?
            if s.satisfied(ex, sol):
                STATS['wit'] = STATS.get('wit', 0) + 1
                return True
        u = L(0, {k: 1 for e in ex for k in e.d})
        picked, syms = s._slice(u)
        if len(ex) == 1 and not picked:
            lo, hi = s.interval(ex[0])
            return hi is None or hi >= 0
        lem = s.lemmas_for(picked + ex, syms | set(k for e in ex for k in e.d))
        out = []
        r = lp_feasible(picked + ex + lem, s, out)
        if out and not lem and not any(k in SYM.prod for k in out[0]):
            s.wit = (out[0],) + s.wit[:5]
        return r

    def satisfied(s, ex, sol):
        for e in ex:
            t = e.c
            for k, v in e.d.items():
                x = sol.get(k)
                if x is None:
                    return False
                t += v * x
            if t < 0:
                return False
        return True

    def prove(s, e):
        """is e>=0 entailed?"""
        STATS['prove'] += 1
        if s.dead:
            return True
        e = s.norm(e)
        if e.isconst():
            return e.c >= 0
        lo, hi = s.interval(e)
        if lo is not None and lo >= 0:
            STATS['fast'] += 1
            return True
        if hi is not None and hi < 0:
            # can only be entailed if the store is infeasible
            STATS['fast'] += 1
            return False
        e = s._tighten(e)
        if e in s.ineq:
            return True
        r = s.cache.get(e)
        if r is None:
            # quick syntactic subsumption: same direction smaller constant
            r = not s.feasible_with([L(-e.c - 1, {k: -v for k, v in e.d.items()})])
            s.cache[e] = r
        return r

    def prove_eq(s, a, b):
        e = s.norm(a - b)
        if e.isconst():
            return e.c == 0
        return s.prove(e) and s.prove(-e)

    def feasible(s):
        if s.dead:
            return False
        if not s.ineq:
            return True
        return lp_feasible(list(s.ineq), s)

    def minmax(s, e):
        """best known bounds of e (interval, improved by a few LP probes)"""
        return s.interval(e)


def lp_feasible(cons, store, out=None):
    """rational feasibility of {c>=0} with the store's symbol bounds (exact)."""
    STATS['lp'] += 1
    # --- bound propagation first
    bnd = {}
    for c in cons:
        for k in c.d:
            if k not in bnd:
                bnd[k] = list(store.bounds1(k))
    rows = [(c.c, list(c.d.items())) for c in cons]
    for rnd in range(6):
        ch = False
        for c0, items in rows:
            # c0 + sum v*k >= 0 ;  max of sum
            ninf = 0
            infk = None
            tot = c0
            for k, v in items:
                b = bnd[k]
                x = b[1] if v > 0 else b[0]
                if x is None:
                    ninf += 1
                    infk = k
                    if ninf > 1:
                        break
                else:
                    tot += v * x
            if ninf == 0 and tot < 0:
                return False
            if ninf > 1:
                continue
            for k, v in items:
                if ninf == 1 and k != infk:
                    continue
                b = bnd[k]
                x = b[1] if v > 0 else b[0]
                rest = tot - (v * x if x is not None else 0)
                # v*k >= -rest
                if v > 0:
                    n = -(rest // v)
                    if b[0] is None or n > b[0]:
                        b[0] = n
                        ch = True
                else:
                    n = rest // (-v)
                    if b[1] is None or n < b[1]:
                        b[1] = n
                        ch = True
                if b[0] is not None and b[1] is not None and b[0] > b[1]:
                    return False
        if not ch:
            break
    return simplex(rows, bnd, out)


def simplex(rows, bnd, out=None, maxit=4000):
    """feasibility, general simplex with Bland's rule, exact integers.

    basic variables are slacks s_i = sum v*k with bound s_i >= -c_i"""
    # tableau: row i: (den, {nonbasic: coef}), basic var id ('s',i) or sym
    lo = {}
    hi = {}
    val = {}
    for k, b in bnd.items():
        lo[k] = b[0]
        hi[k] = b[1]
        val[k] = b[0] if b[0] is not None else (b[1] if b[1] is not None else 0)
    tab = {}
    order = {}
    n = 0
    for k in bnd:
        order[k] = n
        n += 1
    for i, (c0, items) in enumerate(rows):
        s = ('s', i)
        order[s] = n
        n += 1
        lo[s] = -c0
        hi[s] = None
        tab[s] = (1, dict(items))
    # values as fractions: represent (num, den)
    # (integers wherever possible: Fraction arithmetic is slow)
    from fractions import Fraction as F

    def div(x, y):
        if type(x) is int:
            q, m = divmod(x, y)
            return q if m == 0 else F(x, y)
        x = x / y
        return x.numerator if x.denominator == 1 else x
    valF = dict(val)
    for s, (den, r) in tab.items():
        valF[s] = sum(v * val[k] for k, v in r.items())
    it = 0
    while True:
        it += 1
        if it > maxit:
            return True   # give up: claim feasible (sound for entailment: "not proved")
        # find violated basic var with smallest order
        bad = None
        for b in tab:
            v = valF[b]
            if lo[b] is not None and v < lo[b]:
                if bad is None or order[b] < order[bad[0]]:
                    bad = (b, 1)
            elif hi[b] is not None and v > hi[b]:
                if bad is None or order[b] < order[bad[0]]:
                    bad = (b, -1)
        if bad is None:
            if out is not None:
                out.append({k: valF[k] for k in bnd})
            return True
        b, sgn = bad
        den, r = tab[b]
        ent = None
        for k, v in r.items():
            x = v * sgn
            vk = valF[k]
            if (x > 0 and (hi[k] is None or vk < hi[k])) or (x < 0 and (lo[k] is None or vk > lo[k])):
                if ent is None or order[k] < order[ent]:
                    ent = k
        if ent is None:
            return False
        target = lo[b] if sgn > 0 else hi[b]
        a = r[ent]
        theta = div((target - valF[b]) * den, a)
        # update values
        valF[b] = target
        valF[ent] += theta
        for b2, (den2, r2) in tab.items():
            if b2 is not b and b2 != b:
                c = r2.get(ent)
                if c:
                    valF[b2] += div(theta * c, den2)
        # pivot: b = (1/den) sum r  ->  ent = (den*b - sum_{k!=ent} r_k k)/a
        if a > 0:
            nr = {k: -v for k, v in r.items() if k != ent}
            nr[b] = den
            nden = a
        else:
            nr = {k: v for k, v in r.items() if k != ent}
            nr[b] = -den
            nden = -a
        g = nden
        for v in nr.values():
            g = gcd(g, v)
            if g == 1:
                break
        if g > 1:
            nden //= g
            nr = {k: v // g for k, v in nr.items()}
        del tab[b]
        for b2 in list(tab):
            den2, r2 = tab[b2]
            c = r2.get(ent)
            if c:
                d = {k: v * nden for k, v in r2.items() if k != ent}
                for k, v in nr.items():
                    w = d.get(k, 0) + c * v
                    if w:
                        d[k] = w
                    else:
                        d.pop(k, None)
                dd = den2 * nden
                g = dd
                for v in d.values():
                    g = gcd(g, v)
                    if g == 1:
                        break
                if g > 1:
                    dd //= g
                    d = {k: v // g for k, v in d.items()}
                tab[b2] = (dd, d)
        tab[ent] = (nden, nr)
