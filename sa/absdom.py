"""Abstract states between steps: affine equalities (Karr) + bounds and relational inequalities
over the numeric locations (memory cells, pointer offsets and ghost variables) of a state."""
from engine import *

ONE = ('1',)


def numlocs(st, skip=()):
    """ordered numeric locations with their value"""
    out = {}
    for k in sorted(st.ghost):
        v = st.ghost[k]
        if isinstance(v, L):
            out[('g', k)] = v
    for rid in sorted(st.mem, key=repr):
        r = st.mem[rid]
        if r.kind == 'global' or r.const:
            continue
        for o in sorted(r.cells):
            v = r.cells[o][1]
            if isinstance(v, L):
                out[('m', rid, o)] = v
            elif isinstance(v, Ptr) and v.r is not None:
                out[('m', rid, o)] = v.o
        if isinstance(r.size, L) and (r.kind == 'heap' or not r.size.isconst()):
            out[('z', rid)] = r.size
    return out


def shape(st):
    """everything that is not numeric"""
    out = []
    for k in sorted(st.ghost):
        v = st.ghost[k]
        out.append((k, 'num' if isinstance(v, L) else v))
    for rid in sorted(st.mem, key=repr):
        r = st.mem[rid]
        if r.kind == 'global' or r.const:
            continue
        cells = []
        for o in sorted(r.cells):
            sz, v = r.cells[o]
            if isinstance(v, L):
                if v == 0 and r.default == 'zero':
                    continue
                cells.append((o, 'num'))
            elif isinstance(v, Ptr):
                if v.r is None and v.o == 0:
                    if r.default != 'zero':
                        cells.append((o, 'null'))
                else:
                    cells.append((o, 'ptr', v.r))
            elif isinstance(v, Fn):
                cells.append((o, 'fn', v.name))
            elif isinstance(v, Opaque):
                cells.append((o, 'opq', v.k))
            else:
                cells.append((o, 'x', repr(v)))
        cells = [c for c in cells if c[1] != 'num']
        out.append((repr(rid), r.kind, r.freed, tuple(cells)))
    return tuple(out)


def rref(rel):
    """reduced echelon form of a list of relations (dict key->int): each pivot occurs once"""
    rows = [{k: Fraction(c) for k, c in r.items()} for r in rel]
    cols = sorted({k for r in rel for k in r if k != ONE}, key=lambda k: (k[0] == 'S', k[0] != 'g', repr(k)))
    out = []
    for col in cols:
        p = None
        for r in rows:
            if r.get(col):
                if p is None or len(r) < len(p):
                    p = r
        if p is None:
            continue
        rows = [r for r in rows if r is not p]
        f = p[col]
        p = {k: c / f for k, c in p.items()}

        def elim(r):
            g = r.get(col)
            if not g:
                return r
            q = dict(r)
            for k, c in p.items():
                x = q.get(k, 0) - g * c
                if x:
                    q[k] = x
                else:
                    q.pop(k, None)
            return q
        rows = [elim(r) for r in rows]
        out = [elim(r) for r in out] + [p]
    res = []
    for r in out:
        den = 1
        for c in r.values():
            den = den * c.denominator // gcd(den, c.denominator)
        q = {k: int(c * den) for k, c in r.items() if c}
        g = 0
        for c in q.values():
            g = gcd(g, c)
        res.append({k: c // g for k, c in q.items()})
    return res


def unit_rows(rel):
    """the relations, preceded by differences of them that have a unit coefficient where they have none (these are
    the ones the constraint store can solve for a symbol)"""
    bad = [r for r in rel if not any(abs(c) == 1 for k, c in r.items() if k != ONE)]
    extra = []
    for i, a in enumerate(bad):
        for b in bad[:i]:
            d = dict(a)
            for k, c in b.items():
                x = d.get(k, 0) - c
                if x:
                    d[k] = x
                else:
                    d.pop(k, None)
            g = 0
            for c in d.values():
                g = gcd(g, c)
            if g and any(abs(c) == g for k, c in d.items() if k != ONE) and len(d) < 4:
                extra.append({k: c // g for k, c in d.items()})
    return extra + rel


class AState:
    def __init__(s, key, st, templates=()):
        s.key = key
        s.skel = st
        s.visits = 0
        vals = numlocs(st)
        s.locs = list(vals)
        s.uid = len(UIDS)
        UIDS.append(key)
        space = [{lc: 1} for lc in s.locs] + [{ONE: 1}]
        d = dict(vals)
        d[ONE] = L(1)
        s.rel = rref(nullspace(space, {k: st.cs.norm(v) for k, v in d.items()}))
        s.bounds = {}
        for lc in s.locs:
            s.bounds[lc] = s.bound(st, st.cs.norm(vals[lc]))
        s.ineq = s.harvest(st, vals)
        for q, c in templates:
            if any(lc not in vals and not s.zero(lc) for lc in q):
                continue
            e = L(c)
            for lc, k in q.items():
                if lc in vals:
                    e = e + vals[lc].scale(k)
            if st.cs.prove(e):
                s.ineq.append((q, c))

    def zero(s, lc):
        return lc[0] == 'm' and lc[1] in s.skel.mem and s.skel.mem[lc[1]].default == 'zero' and \
            lc[2] not in s.skel.mem[lc[1]].cells

    def width(s, lc):
        if lc[0] == 'm':
            return 8 * s.skel.mem[lc[1]].cells[lc[2]][0]
        return 64

    def bound(s, st, v):
        lo, hi = st.cs.interval(v)
        if lo is None or lo < 0:
            if st.cs.prove(v - 1):
                lo = 1
            elif st.cs.prove(v):
                lo = 0
        elif lo == 0 and not v.isconst() and st.cs.prove(v - 1):
            lo = 1
        if len(v.d) > 1:
            # the interval of a sum is coarse: try the thresholds
            for x in thresholds(64):
                if hi is not None and x >= hi:
                    break
                if st.cs.prove(L(x) - v):
                    hi = x
                    break
        return (lo, hi)

    def harvest(s, st, vals):
        """constraints of the store that can be expressed over locations"""
        # echelon form of the values, tracking combinations
        rows = []      # (pivot symbol, vector L (over Fractions dict), combo dict)
        for lc, v in vals.items():
            v = st.cs.norm(v)
            vec = {k: Fraction(c) for k, c in v.d.items()}
            vec[ONE] = Fraction(v.c)
            combo = {lc: Fraction(1)}
            for p, rv, rc in rows:
                f = vec.get(p, 0)
                if f:
                    for k, x in rv.items():
                        vec[k] = vec.get(k, 0) - f * x
                    for k, x in rc.items():
                        combo[k] = combo.get(k, 0) - f * x
            piv = None
            for k, x in vec.items():
                if k is not ONE and x != 0:
                    piv = k
                    break
            if piv is None:
                continue
            f = vec[piv]
            vec = {k: x / f for k, x in vec.items() if x != 0}
            combo = {k: x / f for k, x in combo.items() if x != 0}
            nr = []
            for p, rv, rc in rows:
                g = rv.get(piv, 0)
                if g:
                    rv = dict(rv)
                    rc = dict(rc)
                    for k, x in vec.items():
                        rv[k] = rv.get(k, 0) - g * x
                    for k, x in combo.items():
                        rc[k] = rc.get(k, 0) - g * x
                nr.append((p, rv, rc))
            rows = nr + [(piv, vec, combo)]
        out = []
        seen = set()
        cons = list(st.cs.ineq)
        for k in {k for v in vals.values() for k in st.cs.norm(v).d}:
            lo, hi = st.cs.bounds1(k)
            if lo is not None:
                cons.append(L(-lo, {k: 1}))
            if hi is not None:
                cons.append(L(hi, {k: -1}))
        for c in cons:
            vec = {k: Fraction(x) for k, x in c.d.items()}
            cst = Fraction(c.c)
            combo = {}
            for p, rv, rc in rows:
                f = vec.get(p, 0)
                if f:
                    for k, x in rv.items():
                        if k is ONE:
                            cst -= f * x
                        else:
                            vec[k] = vec.get(k, 0) - f * x
                    for k, x in rc.items():
                        combo[k] = combo.get(k, 0) + f * x
            if any(x != 0 for x in vec.values()):
                continue
            # c = sum combo*loc + cst
            den = cst.denominator
            for x in combo.values():
                den = den * x.denominator // gcd(den, x.denominator)
            q = {k: int(x * den) for k, x in combo.items() if x != 0}
            if len(q) < 2:
                continue
            key = (tuple(sorted(q.items(), key=repr)), int(cst * den))
            if key not in seen:
                seen.add(key)
                out.append((q, int(cst * den)))
        return out

    def values_in(s, u):
        d = numlocs(u)
        vals = {}
        for lc in s.locs:
            if lc in d:
                vals[lc] = u.cs.norm(d[lc])
            else:
                vals[lc] = L(0)
        extra = [lc for lc in d if lc not in s.bounds]
        return vals, d, extra

    def absorb(s, u, widen):
        """join u into the state; returns True if it changed"""
        changed = False
        vals, d, extra = s.values_in(u)
        for lc in extra:
            # a location so far implicitly zero
            s.locs.append(lc)
            s.bounds[lc] = (0, 0)
            s.rel.append({lc: 1})
            vals[lc] = u.cs.norm(d[lc])
            if not (vals[lc].isconst() and vals[lc].c == 0):
                changed = True
            if lc[0] == 'm':
                w = s.skel.w(lc[1])
                c = u.mem[lc[1]].cells[lc[2]]
                w.cells[lc[2]] = (c[0], L(0) if isinstance(c[1], L) else Ptr(c[1].r, L(0)))
        vv = dict(vals)
        vv[ONE] = L(1)
        nr = nullspace(s.rel, vv)
        if len(nr) != len(s.rel):
            changed = True
            nr = rref(nr)
        s.rel = nr
        for lc in s.locs:
            lo, hi = s.bounds[lc]
            v = vals[lc]
            if lo is not None and not u.cs.prove(v - lo):
                changed = True
                l2, _ = s.bound(u, v)
                if widen or l2 is None or l2 > lo:
                    l2 = next((x for x in (0, -(1 << (s.width(lc) - 1))) if x < lo and u.cs.prove(v - x)), None)
                lo = l2
            if hi is not None and not u.cs.prove(L(hi) - v):
                changed = True
                _, h2 = s.bound(u, v)
                if widen or h2 is None or h2 < hi:
                    h2 = next((x for x in thresholds(s.width(lc)) if x > hi and u.cs.prove(L(x) - v)), None)
                hi = h2
            s.bounds[lc] = (lo, hi)
        keep = []
        for q, c in s.ineq:
            e = L(c)
            for lc, k in q.items():
                if lc in vals:
                    e = e + vals[lc].scale(k)
            if u.cs.prove(e):
                keep.append((q, c))
            else:
                changed = True
        s.ineq = keep
        return changed

    def instantiate(s):
        st = State()
        for rid, r in s.skel.mem.items():
            st.mem[rid] = r
        st.ghost = dict(s.skel.ghost)
        x = {}
        for i, lc in enumerate(s.locs):
            lo, hi = s.bounds[lc]
            nm = lc[1] if lc[0] == 'g' else '_'.join(str(y) for y in lc[1:])
            if lo is not None and lo == hi:
                x[lc] = L(lo)
            else:
                x[lc] = SYM.sym(str(nm), lo, hi)
        cs = st.cs
        for lc in s.locs:
            if lc[0] == 'g':
                st.ghost[lc[1]] = x[lc]
            elif lc[0] == 'z':
                st.w(lc[1]).size = x[lc]
            else:
                w = st.w(lc[1])
                sz, v = w.cells[lc[2]]
                w.cells[lc[2]] = (sz, x[lc] if isinstance(v, L) else Ptr(v.r, x[lc]))
        for b in unit_rows(s.rel):
            e = L(0)
            for lc, c in b.items():
                e = e + (L(c) if lc == ONE else x[lc].scale(c))
            cs.add_eq0(e)
        for q, c in s.ineq:
            e = L(c)
            for lc, k in q.items():
                if lc in x:
                    e = e + x[lc].scale(k)
            cs.add_ge0(e)
        if cs.dead:
            raise AnalysisError('inconsistent abstract state at %r' % (s.key,))
        return st


UIDS = []
CONSTS = []       # constants compared against in the analysed code: widening thresholds


def thresholds(w):
    return [x for x in CONSTS if x < (1 << (w - 1)) - 1] + [(1 << (w - 1)) - 1, (1 << w) - 1]


def note_consts(mod):
    out = {17, 36}
    for f in mod.funcs.values():
        if f.decl:
            continue
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'icmp':
                    for x in i.a:
                        if x[0] == 'c' and 1024 <= x[1] < (1 << 31):
                            out.update((x[1] - 1, x[1], x[1] + 1))
    # one threshold per order of magnitude
    CONSTS[:] = [x for i, x in enumerate(sorted(out)) if i + 1 == len(out) or sorted(out)[i + 1] > 2 * x]




class PState(AState):
    """abstract state at a loop head, relative to the loop-entry store: the symbols known at loop
    entry keep their meaning, so relations are kept between modified locations and entry symbols"""

    def __init__(s, key, u, mod, base, nsym, tmpl=None):
        s.key = key
        s.skel = u
        s.base = base
        s.nsym = nsym          # symbols with id < nsym are entry symbols
        s.visits = 0
        s.locs = sorted(mod, key=repr)
        vals = s.take(u)
        s.syms = set()
        s.note_syms(vals)
        # entry symbols that this first arrival happens to pin down: others need not
        for k, v in u.cs.sub.items():
            if k < nsym and k not in base.sub:
                s.syms.add(k)
                s.syms.update(x for x in v.d if x < nsym)
        d = s.full(vals)
        space = [{k: 1} for k in d]
        s.rel = nullspace(space, {k: u.cs.norm(v) for k, v in d.items()})
        s.rel = rref([b for b in s.rel if any(k in vals for k in b) or base.norm(s.symexpr(b)) != 0])
        s.bounds = {lc: s.bound(u, u.cs.norm(vals[lc])) for lc in s.locs}
        s.ineq = s.harvest2(u, vals)
        s.tmpl = tmpl
        s.tkeep = [u.cs.prove(x) for x in tmpl(u)] if tmpl else []

    def take(s, u):
        return {lc: u.cs.norm(getnum(u, lc)) for lc in s.locs}

    def symexpr(s, b):
        return L(b.get(ONE, 0), {k[1]: c for k, c in b.items() if k is not ONE})

    def note_syms(s, vals):
        n = len(s.syms)
        for v in vals.values():
            for k in v.d:
                if k < s.nsym:
                    s.syms.add(k)
        return len(s.syms) != n

    def full(s, vals):
        d = dict(vals)
        for k in sorted(s.syms):
            d[('S', k)] = L(0, {k: 1})
        d[ONE] = L(1)
        return d

    def width(s, lc):
        if lc[0] == 'm':
            return 8 * s.skel.mem[lc[1]].cells[lc[2]][0]
        return 64

    def harvest2(s, u, vals):
        d = s.full(vals)
        del d[ONE]
        # entry symbols first so that constraints are expressed over them where possible
        dd = {k: v for k, v in d.items() if k[0] == 'S'}
        dd.update({k: v for k, v in d.items() if k[0] != 'S'})
        out = s.harvest(u, dd)
        return [(q, c) for q, c in out if any(k[0] != 'S' for k in q)]

    def addloc(s, lc, entryval):
        s.locs.append(lc)
        r = {lc: 1}
        for k, v in entryval.d.items():
            r[('S', k)] = -v
            s.syms.add(k)
        if entryval.c:
            r[ONE] = -entryval.c
        s.rel.append(r)
        t = State()
        t.cs = s.base
        s.bounds[lc] = s.bound(t, entryval)

    def absorb(s, u, widen):
        changed = False
        vals = s.take(u)
        d = s.full(vals)
        d = {k: u.cs.norm(v) for k, v in d.items()}
        nr = nullspace(s.rel, d)
        if len(nr) != len(s.rel):
            changed = True
            nr = rref(nr)
        s.rel = nr
        for lc in s.locs:
            lo, hi = s.bounds[lc]
            v = vals[lc]
            if lo is not None and not u.cs.prove(v - lo):
                changed = True
                l2, _ = s.bound(u, v)
                if widen or l2 is None or l2 > lo:
                    l2 = next((x for x in (0, -(1 << (s.width(lc) - 1))) if x < lo and u.cs.prove(v - x)), None)
                lo = l2
            if hi is not None and not u.cs.prove(L(hi) - v):
                changed = True
                _, h2 = s.bound(u, v)
                if widen or h2 is None or h2 < hi:
                    h2 = next((x for x in thresholds(s.width(lc)) if x > hi and u.cs.prove(L(x) - v)), None)
                hi = h2
            s.bounds[lc] = (lo, hi)
        keep = []
        for q, c in s.ineq:
            e = L(c)
            for k, x in q.items():
                e = e + d[k].scale(x)
            if u.cs.prove(e):
                keep.append((q, c))
            else:
                changed = True
        s.ineq = keep
        if any(s.tkeep):
            for i, x in enumerate(s.tmpl(u)):
                if s.tkeep[i] and not u.cs.prove(x):
                    s.tkeep[i] = False
                    changed = True
        return changed

    def instantiate(s):
        st = s.skel.copy()
        st.cs = s.base.copy()
        x = {}
        for lc in s.locs:
            lo, hi = s.bounds[lc]
            x[lc] = L(lo) if lo is not None and lo == hi else SYM.sym('L_' + '_'.join(str(y) for y in lc[1:]), lo, hi)
        for lc in s.locs:
            setnum(st, lc, x[lc])
        x[ONE] = L(1)

        def term(k):
            return x[k] if k in x else L(0, {k[1]: 1})
        for b in unit_rows(s.rel):
            e = L(0)
            for k, c in b.items():
                e = e + term(k).scale(c)
            st.cs.add_eq0(e)
        for q, c in s.ineq:
            e = L(c)
            for k, y in q.items():
                e = e + term(k).scale(y)
            st.cs.add_ge0(e)
        if any(s.tkeep):
            for i, y in enumerate(s.tmpl(st)):
                if s.tkeep[i]:
                    st.cs.add_ge0(y)
        if st.cs.dead:
            raise AnalysisError('inconsistent abstract loop state at %r' % (s.key,))
        return st


def getnum(u, lc):
    if lc[0] == 'e':
        v = u.env[lc[1]]
    elif lc[0] == 'g':
        v = u.ghost[lc[1]]
    elif lc[0] == 'z':
        return u.mem[lc[1]].size
    else:
        v = u.mem[lc[1]].cells[lc[2]][1]
    return v.o if isinstance(v, Ptr) else v


def setnum(u, lc, x):
    if lc[0] == 'e':
        v = u.env[lc[1]]
        u.env[lc[1]] = Ptr(v.r, x) if isinstance(v, Ptr) else x
    elif lc[0] == 'g':
        v = u.ghost[lc[1]]
        u.ghost[lc[1]] = Ptr(v.r, x) if isinstance(v, Ptr) else x
    elif lc[0] == 'z':
        u.w(lc[1]).size = x
    else:
        w = u.w(lc[1])
        sz, v = w.cells[lc[2]]
        w.cells[lc[2]] = (sz, Ptr(v.r, x) if isinstance(v, Ptr) else x)


def headlocs(u, phis):
    out = {}
    for p in phis:
        v = u.env.get(p)
        if isinstance(v, L) or isinstance(v, Ptr) and v.r is not None:
            out[('e', p)] = v if isinstance(v, L) else v.o
    out.update(numlocs(u))
    return out


def headshape(u, phis):
    out = []
    for p in phis:
        v = u.env.get(p)
        out.append('num' if isinstance(v, L) else ('ptr', v.r) if isinstance(v, Ptr) else repr(v))
    return (tuple(out), shape(u))


def part_loop(eng, st0, fn, lp, key, canon, tmpl=None):
    """partitioned loop invariant: least fixpoint over (shape, key) of PStates"""
    phis = [i.res for i in fn.blocks[lp.header] if i.op == 'phi']
    widths = {i.res: i.ty.n for i in fn.blocks[lp.header] if i.op == 'phi' and i.ty.k == 'int' and i.ty.n >= 8}
    if eng.part_entry is not None:
        st0 = st0.copy()
        eng.part_entry(st0, phis)
    for p, w in widths.items():
        # entry values in canonical form, so that their parts count as known at entry
        x = st0.env.get(p)
        if isinstance(x, L):
            c = st0.copy()
            try:
                c.env[p] = eng.to_u(c, x, w)
                st0 = c
            except Fork:
                pass
    nsym = len(SYM.names)
    env0 = dict(st0.env)
    heads = {}
    work = []

    def heads_of(u):
        """canonical loop-head states of u, partitioned"""
        todo = [u]
        res = []
        n = 0
        while todo:
            v = todo.pop()
            n += 1
            if n > 500:
                raise AnalysisError('case explosion at loop head in ' + fn.src)
            w = v.copy()
            try:
                e2 = dict(env0)
                for p in phis:
                    x = w.env[p]
                    if isinstance(x, L) and p in widths:
                        x = eng.to_u(w, x, widths[p])
                    e2[p] = x
                w.env = e2
                for rid in list(w.mem):
                    if rid not in st0.mem:
                        if w.mem[rid].kind in ('stack',):
                            del w.mem[rid]
                        continue
                    r0, r1 = st0.mem[rid], w.mem[rid]
                    if r1 is not r0 and r1.default == 'undef' and any(o not in r0.cells for o in r1.cells):
                        # written in the loop only: undefined again at the head
                        q = w.w(rid)
                        q.cells = {o: c for o, c in q.cells.items() if o in r0.cells}
                canon(w)
                k = (key(w), tuple('0' if w.cs.prove_eq(w.env[p], L(0)) else '+' if w.cs.prove(w.env[p] - 1) else '?'
                                   for p in phis if widths.get(p) == 32 and isinstance(w.env[p], L)))
            except Fork as f:
                todo += eng.fork(v, f, None)
                continue
            if w.cs.dead or not w.cs.feasible():
                continue
            res.append((k, w))
        return res

    def arrive(k, u):
        K = (k, hash(headshape(u, phis)))
        vals = headlocs(u, phis)
        A = heads.get(K)
        if A is None:
            mm = set()
            for lc, v in vals.items():
                mm.add(lc)
            # locations whose value is an entry expression that is the same in the entry state stay fixed
            keep = set()
            for lc in mm:
                e0 = ent.get(lc)
                v = u.cs.norm(vals[lc])
                if e0 is not None and u.cs.norm(e0) == v:
                    continue
                keep.add(lc)
            A = PState(K, u, keep, st0.cs, nsym, tmpl)
            A.fixed = {lc: ent[lc] for lc in mm - keep}
            for lc, v in A.fixed.items():
                setnum(A.skel, lc, v)
            heads[K] = A
            work.append(K)
            return
        ch = False
        for lc in list(A.fixed) + A.locs:
            if lc not in vals:
                if lc[0] == 'm' and u.mem[lc[1]].default == 'zero':
                    c = A.skel.mem[lc[1]].cells[lc[2]]
                    u.w(lc[1]).cells[lc[2]] = (c[0], L(0) if isinstance(c[1], L) else Ptr(c[1].r, L(0)))
                    vals[lc] = L(0)
        for lc in list(A.fixed):
            if lc not in vals:
                continue
            if u.cs.norm(vals[lc] - A.fixed[lc]) != 0:
                A.addloc(lc, A.base.norm(A.fixed.pop(lc)))
                ch = True
        for lc in vals:
            if lc not in A.fixed and lc not in A.bounds:
                if lc[0] == 'm' and A.skel.mem[lc[1]].default == 'zero':
                    c = u.mem[lc[1]].cells[lc[2]]
                    A.skel.w(lc[1]).cells[lc[2]] = (c[0], L(0) if isinstance(c[1], L) else Ptr(c[1].r, L(0)))
                    A.addloc(lc, L(0))
                    ch = True
                    continue
                raise AnalysisError('location %r appears in loop of %s' % (lc, fn.src))
        for lc in A.locs:
            if lc not in vals:
                raise AnalysisError('location %r disappears in loop of %s' % (lc, fn.src))
        if A.absorb(u, A.visits > 1) or ch:
            if K not in work:
                work.append(K)

    ent = {lc: st0.cs.norm(v) for lc, v in headlocs(st0, phis).items()}
    eng.mute += 1
    try:
        for k, u in heads_of(st0):
            arrive(k, u)
        n = 0
        while work:
            K = work.pop(0)
            A = heads[K]
            A.visits += 1
            n += 1
            if A.visits > 30 or n > 600:
                raise AnalysisError('no loop invariant for the loop in %s' % fn.src)
            for o in eng.run(A.instantiate(), fn, lp.header, None, lp):
                if o[0] == 'back':
                    t = o[2]
                    eng.phis(t, fn, lp.header, o[1])
                    for k, u in heads_of(t):
                        arrive(k, u)
    finally:
        eng.mute -= 1
    exits = []
    eng.loop_states = eng.__dict__.get('loop_states', 0) + len(heads)
    if not eng.mute:
        eng.cov['loops_inv'] += 1
    nodes = {}
    edges = []
    keepst = []
    for K, A in list(heads.items()):
        h = A.instantiate()
        if not eng.mute:
            nodes[K] = headlocs(h, phis)
        for o in eng.run(h, fn, lp.header, None, lp):
            if o[0] != 'back':
                exits.append(o)
            elif not eng.mute:
                t = o[2]
                eng.phis(t, fn, lp.header, o[1])
                eng.mute += 1
                try:
                    for k, u in heads_of(t):
                        edges.append((K, (k, hash(headshape(u, phis))), u.cs, headlocs(u, phis)))
                        keepst.append(u)
                finally:
                    eng.mute -= 1
    if not eng.mute:
        import rank
        eng.ranked(fn, lp, rank.terminates(nodes, edges), keepst)
    return exits
