"""The weak checksums: rolling updates against recomputation, bulk update against byte by byte."""
from engine import *
from units import Unit, RS, I31

SEED = 1
MULT = 0x08104225          # the multiplier fixed by the signature format (see the published rabinkarp parameters)
CHAR_OFFSET = 31
M32 = 1 << 32
MAXLEN = 1 << 40


def dlog(c, base, k=32):
    """e with base^e = c mod 2^k, for base = 5 mod 8 and c = 1 mod 4"""
    m = 1 << k
    if c % 4 != 1:
        return None
    e = 0
    x = 1
    for b in range(k - 2):
        # base^(2^b) = 1 + 2^(b+2)*odd: fix bit b+2 of the quotient
        if ((x - c) >> (b + 2)) & 1:
            e |= 1 << b
            x = x * pow(base, 1 << b, m) % m
    return e if (x - c) % m == 0 else None


def mulphis(fn, lp):
    """loop-carried integers updated by multiplication with something that varies; those of them updated
    in the same way every time; does the loop multiply a stored value?"""
    defs = {i.res: i for b in fn.blocks.values() for i in b if i.res is not None}
    phis = [i for i in fn.blocks[lp.header] if i.op == 'phi' and i.ty.k == 'int']
    out = set()
    closed = set()
    mem = False
    for p in phis:
        todo = [v[1] for v, lab in p.a if v[0] == 'r' and lab in lp.blocks]
        seen = set(todo)
        branchy = False
        while todo:
            d = defs.get(todo.pop())
            if d is None or d is p:
                continue
            if d.op == 'mul' and all(a[0] == 'r' for a in d.a):
                out.add(p.res)
            if d.op in ('phi', 'select'):
                branchy = True
            if d.op in ('mul', 'phi', 'select') and d.fn is fn.blocks[lp.header][0].fn:
                for o in operands(d):
                    if o not in seen:
                        seen.add(o)
                        todo.append(o)
        if p.res in out and not branchy:
            closed.add(p.res)
    for b in lp.blocks:
        for i in fn.blocks[b]:
            if i.op == 'store' and i.a[0][0] == 'r':
                d = defs.get(i.a[0][1])
                if d is not None and d.op == 'mul' and all(a[0] == 'r' for a in d.a) and any(
                        defs.get(a[1]) is not None and defs[a[1]].op == 'load' for a in d.a):
                    mem = True
    return out, closed, mem


class Weak(Unit):
    name = 'weak'
    tags = ('C15',)

    def start(s):
        e = s.e
        for k in list(e.tagmap):
            if k not in ('freed', 'badfree'):
                e.tagmap[k] = ('C15', 'C20')
        e.rank_tags = ('C15', 'C17')
        e.ring = {'A1': 64, 'A2': 64, 'T': 64, 'G': 32, 'P': 32}
        e.powers = s.powers
        s.base = {}
        s.mp = {}
        s.n = None
        s.mcell = None
        e.part_entry = s.bits
        e.part = (s.powloop, s.lkey, s.lcanon, s.ltmpl)
        wk = s.m.enum('weaksum_kind_t')
        for n in ('RS_ROLLSUM', 'RS_RABINKARP'):
            if n not in wk:
                raise AnalysisError('weaksum_kind_t lacks ' + n)
        s.K = {'rs': wk['RS_ROLLSUM'], 'rk': wk['RS_RABINKARP']}
        s.S = {'rs': 'Rollsum', 'rk': 'rabinkarp'}
        s.off = s.field('weaksum', 'sum')[0]
        for kind in ('rs', 'rk'):
            s.primitives(kind)
            s.bulk(kind)
            s.scratch(kind)
        s.kinds()

    # ---------------------------------------------------------------- powers of the multiplier
    def addpow(s, base, E):
        b = base.key()
        s.base[b] = base
        return Ptr(('POW', b), E)

    def powers(s, st, op, a, b, w):
        if w != 32:
            return None
        if op != 'mul':
            x = s.flat(st, a)
            y = s.flat(st, b)
            return s.e.ibin(st, op, x, y, w) if isinstance(x, L) and isinstance(y, L) else None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and isinstance(x.r, tuple) and x.r[0] == 'POW':
                if isinstance(y, Ptr) and isinstance(y.r, tuple) and y.r[0] == 'POW':
                    bx, by = s.base[x.r[1]], s.base[y.r[1]]
                    return s.addpow(st.cs.norm(mul(bx, by)), st.cs.norm(x.o + y.o))
                if isinstance(y, L):
                    y = st.cs.norm(y)
                    k = dlog(y.c % M32, MULT) if y.isconst() else None
                    if k is not None:
                        return s.addpow(s.base[x.r[1]], st.cs.norm(x.o + k))
                    return mul(s.flat(st, x), y)
        return None

    def flat(s, st, v):
        """a power as an ordinary value"""
        if isinstance(v, Ptr) and isinstance(v.r, tuple) and v.r[0] == 'POW':
            return mul(s.base[v.r[1]], s.powterm(st, v.o))
        return v

    def powterm(s, st, E):
        E = residue(st.cs.norm(E), 30)
        c = pow(MULT, E.c % (1 << 30), M32)
        E = L(0, E.d)
        if not E.d:
            return L(c)
        return SYM.term(('pow', E.key()), 'mult^(%r)' % E, 0, M32 - 1).scale(c)

    def powloop(s, fn, lp):
        k = (fn.name, lp.header)
        if k not in s.mp:
            s.mp[k] = mulphis(fn, lp)
        s.cur, s.closed, s.curmem = s.mp[k]
        if s.cur or s.curmem:
            s.curphis = [i.res for i in fn.blocks[lp.header] if i.op == 'phi']
        return bool(s.cur or s.curmem)

    def lcanon(s, w):
        w.ev = None
        for p in s.cur:
            v = w.env[p]
            if isinstance(v, L):
                v = w.cs.norm(v)
                k = dlog(v.c % M32, MULT) if v.isconst() else None
                w.env[p] = s.addpow(L(1), L(k)) if k is not None else s.addpow(v, L(0))
        if s.curmem and s.mcell is not None and s.mcell[0] in w.mem:
            c = w.mem[s.mcell[0]].cells.get(s.mcell[1])
            if c is not None and isinstance(c[1], L):
                w.w(s.mcell[0]).cells[s.mcell[1]] = (c[0], s.addpow(w.cs.norm(c[1]), L(0)))

    def lkey(s, w):
        out = []
        for p in s.curphis:
            v = w.env[p]
            if isinstance(v, Ptr) and isinstance(v.r, tuple) and v.r[0] == 'POW':
                out.append(v.r)
                if p not in s.closed:
                    continue
            if isinstance(v, Ptr):
                v = v.o
            if isinstance(v, L):
                v = w.cs.norm(v)
                out.append(v.c if v.isconst() else None)
        return tuple(out)

    def ltmpl(s, u):
        out = [u.env[p].o for p in sorted(s.cur)]
        if s.curmem and s.mcell is not None:
            c = u.mem[s.mcell[0]].cells.get(s.mcell[1]) if s.mcell[0] in u.mem else None
            if c is not None and isinstance(c[1], Ptr):
                out.append(c[1].o)
        return out

    def bits(s, st, phis):
        """at the entry of a power loop: the bits of the length"""
        if s.n is None or 'bits%d' % min(s.n.d) in st.ghost:
            return
        n = st.cs.norm(s.n)
        st.ghost['bits%d' % min(s.n.d)] = '1'
        b = SYM.sym('len div 2^32', 0, MAXLEN >> 32).scale(1 << 32)
        for i in range(32):
            b = b + SYM.sym('bit%d' % i, 0, 1).scale(1 << i)
        if len(n.d) == 1 and n.c == 0:
            (k, c), = n.d.items()
            if c == 1:
                st.cs._subst(k, b)
                return
        st.cs.add_eq0(n - b)

    # ---------------------------------------------------------------- accumulators
    def sum(s, st, kind, fresh=True):
        e = s.e
        r = s.reg(st, 'buf', L(s.m.struct_size('weaksum')), 'weak sum', default='lazy', structured=True)
        s.setf(st, r, 'weaksum', 'kind', L(s.K[kind]))
        v = {}
        for f in ('count', 's1', 's2') if kind == 'rs' else ('count', 'hash', 'mult'):
            o, sz, _ = s.field(s.S[kind], f)
            if f == 'mult':
                s.mcell = (r, s.off + o)
            v[f] = SYM.sym(f, 0, (1 << (8 * sz)) - 1)
            s.put(st, r, s.off + o, sz, v[f])
        return r, v

    def get(s, st, r, kind, f):
        o, sz, _ = s.field(s.S[kind], f)
        v = s.e.load_raw(st, st.mem[r], L(s.off + o), sz, INT(8 * sz))
        v = s.flat(st, v)
        if not isinstance(v, L):
            raise AnalysisError('field %s of a weak sum holds %r' % (f, v))
        return st.cs.norm(v)

    def same(s, st, a, b, w):
        return residue(st.cs.norm(a - b), w) == 0

    def after(s, st, r, kind, want, fn, what):
        if kind == 'rs':
            for f, w in (('count', 64), ('s1', 16), ('s2', 16)):
                got = s.get(st, r, kind, f)
                s.ob(st, s.same(st, got, want[f], w), 'C15', '%s leaves %s = %r (modulo 2^%d) where recomputation gives %r' % (
                    what, f, residue(got, w), w, residue(st.cs.norm(want[f]), w)), fn, rule='accumulator')
        else:
            for f, w in (('count', 64), ('hash', 32), ('mult', 32)):
                got = s.get(st, r, kind, f)
                s.ob(st, s.same(st, got, want[f], w), 'C15', '%s leaves %s = %r where recomputation gives %r' % (
                    what, f, residue(got, w), residue(st.cs.norm(want[f]), w)), fn, rule='accumulator')
        k = s.getf(st, r, 'weaksum', 'kind')
        s.ob(st, isinstance(k, L) and st.cs.prove_eq(k, L(s.K[kind])), 'C15', '%s changes the kind of the sum' % what, fn, rule='accumulator')

    def primitives(s, kind):
        inv = pow(MULT, -1, M32)

        def c31(x):
            return x + CHAR_OFFSET
        for op in ('rotate', 'rollin', 'rollout', 'reset', 'init'):
            f = s.m.fn('weaksum_' + op)
            if f is None:
                if op == 'rollin':
                    continue                # not used by the library itself
                raise AnalysisError('function weaksum_%s not found' % op)
            st = State()
            r, v = s.sum(st, kind)
            a, b = SYM.sym('out', 0, 255), SYM.sym('in', 0, 255)
            k = v['count']
            if op in ('rotate', 'rollout'):
                st.cs.add_ge0(k - 1)
            args = {'rotate': [a, b], 'rollin': [b], 'rollout': [a], 'reset': [], 'init': [L(s.K[kind])]}[op]
            if op == 'init':
                s.setf(st, r, 'weaksum', 'kind', SYM.sym('oldkind', 0, M32 - 1))
            if kind == 'rs':
                s1, s2 = v['s1'], v['s2']
                if op == 'rotate':
                    n1 = s1 + b - a
                    want = dict(count=k, s1=n1, s2=s2 + n1 - mul(k, c31(a)))
                elif op == 'rollin':
                    n1 = s1 + c31(b)
                    want = dict(count=k + 1, s1=n1, s2=s2 + n1)
                elif op == 'rollout':
                    want = dict(count=k - 1, s1=s1 - c31(a), s2=s2 - mul(k, c31(a)))
                else:
                    want = dict(count=L(0), s1=L(0), s2=L(0))
            else:
                h, m = v['hash'], v['mult']
                # hash of a window w_1..w_k is M^k + sum w_i M^(k-i); mult is M^k
                if op == 'rotate':
                    want = dict(count=k, mult=m, hash=h.scale(MULT) + b - mul(m, a + (MULT - 1)))
                elif op == 'rollin':
                    want = dict(count=k + 1, mult=m.scale(MULT), hash=h.scale(MULT) + b)
                elif op == 'rollout':
                    m1 = m.scale(inv)
                    want = dict(count=k - 1, mult=m1, hash=h - mul(m1, a + (MULT - 1)))
                else:
                    want = dict(count=L(0), hash=L(SEED), mult=L(1))
            outs = s.run(f, [Ptr(r, L(0))] + args, st)
            if not outs:
                raise AnalysisError('weaksum_%s never returns' % op)
            for t, _ in outs:
                s.resolve(t, lambda w: s.after(w, r, kind, want, f, 'weaksum_' + op))
        f = s.m.fn('weaksum_count')
        if f is not None:
            st = State()
            r, v = s.sum(st, kind)
            for t, x in s.run(f, [Ptr(r, L(0))], st):
                s.ob(t, isinstance(x, L) and s.same(t, x, v['count'], 64), 'C15', 'weaksum_count does not give the length of the window', f)

    # ---------------------------------------------------------------- bulk update
    def data(s, st, v, kind):
        n = SYM.sym('len', 0, MAXLEN)
        s.n = n
        if kind == 'rs':
            s.tri = SYM.sym('len*(len+1)/2', 0, 1 << 81)
            st.cs.add_eq0(s.tri.scale(2) - mul(n, n) - n)
        s.dr = s.reg(st, 'buf', n, 'data', const=True)
        st.mem[s.dr].segs = ((L(0), n, ('str', 'DATA', L(0))),)
        g = st.ghost
        g['POS'] = L(0)
        if kind == 'rs':
            g.update(A1=v['s1'], A2=v['s2'], T=L(0))
        else:
            g.update(G=v['hash'], P=v['mult'])
        return n

    def load(s, st, p, ty, ins):
        if p.r != s.dr:
            r = st.mem.get(p.r)
            o = st.cs.norm(p.o)
            if r is not None and r.kind == 'global' and o.isconst() and ty.k == 'int' and ty.n == 32 and o.c % 4 == 0:
                c = r.cells.get(o.c)
                i = o.c // 4
                if 30 <= i < 64 and c is not None and c[0] == 4 and isinstance(c[1], L) and c[1] == 1:
                    # exponents count modulo 2^30: the entry for bit i is the 2^i'th power
                    return s.addpow(L(1), L(1 << i))
            if r is not None and o.isconst() and (p.r, o.c) == s.mcell:
                c = r.cells.get(o.c)
                if c is not None and c[0] == s.e.m.size(ty) and isinstance(c[1], Ptr):
                    return c[1]
            return None
        g = st.ghost
        cs = st.cs
        if ty.k != 'int' or ty.n != 8:
            raise AnalysisError('data summed in units of %r' % (ty,))
        d = cs.norm(p.o - g['POS'])
        if cs.prove(-d - 1):
            return None
        if not d.isconst() or d.c > 64:
            s.ob(st, False, 'C15', 'byte %r is summed when %r is next' % (cs.norm(p.o), cs.norm(g['POS'])), ins=ins, rule='order')
            st.dead = True
            return L(0)
        for _ in range(d.c + 1):
            c = s.e.byte(st, 'DATA', g['POS'])
            if 'G' in g:
                g['G'] = residue(cs.norm(g['G'].scale(MULT) + c), 32)
                g['P'] = residue(cs.norm(g['P'].scale(MULT)), 32)
            else:
                g['A1'] = cs.norm(g['A1'] + c)
                g['A2'] = cs.norm(g['A2'] + g['A1'])
                g['T'] = cs.norm(g['T'] + g['POS'] + 1)
            g['POS'] = cs.norm(g['POS'] + 1)
        return None

    def finish(s, w, kind, v, fn, what):
        """the value the fold of all bytes gives"""
        g = w.ghost
        cs = w.cs
        if not s.ob(w, cs.prove_eq(g['POS'], s.n), 'C15', '%s sums %r of %r bytes' % (what, cs.norm(g['POS']), cs.norm(s.n)), fn, rule='order'):
            return None
        k = v['count'] + s.n
        if kind == 'rs':
            cs.add_eq0(g['T'] - s.tri)      # T is the triangular number of POS
            return dict(count=k, s1=g['A1'] + s.n.scale(CHAR_OFFSET), s2=g['A2'] + s.tri.scale(CHAR_OFFSET))
        pt = mul(v['mult'], s.powterm(w, s.n))
        cs.add_eq0(g['P'] - pt)             # P is mult times the POS'th power
        return dict(count=k, hash=g['G'], mult=pt)

    def hooked(s, f, args, st):
        s.e.load_hook = s.load
        try:
            return s.run(f, args, st)
        finally:
            s.e.load_hook = None

    def bulk(s, kind):
        f = s.fn('weaksum_update')
        st = State()
        r, v = s.sum(st, kind)
        n = s.data(st, v, kind)
        outs = s.hooked(f, [Ptr(r, L(0)), Ptr(s.dr, L(0)), n], st)
        if not outs:
            raise AnalysisError('weaksum_update never returns')

        def chk(w):
            want = s.finish(w, kind, v, f, 'weaksum_update')
            if want is not None:
                if kind == 'rs':
                    # the carry of the offset over the bytes already in the window
                    pass
                s.after(w, r, kind, want, f, 'weaksum_update')
        for t, _ in outs:
            s.resolve(t, chk)

    def digest(s, st, s1, s2):
        return s.e.emod(st, s2, 1 << 16).scale(1 << 16) + s.e.emod(st, s1, 1 << 16)

    def scratch(s, kind):
        """the sum put into signatures"""
        f = s.fn('rs_calc_weak_sum')
        st = State()
        v = dict(count=L(0), s1=L(0), s2=L(0), hash=L(SEED), mult=L(1))
        n = s.data(st, v, kind)
        outs = s.hooked(f, [L(s.K[kind]), Ptr(s.dr, L(0)), n], st)
        if not outs:
            raise AnalysisError('rs_calc_weak_sum never returns')

        def chk(w, x):
            want = s.finish(w, kind, v, f, 'rs_calc_weak_sum')
            if want is None:
                return
            d = want['hash'] if kind == 'rk' else s.digest(w, want['s1'], want['s2'])
            x = s.flat(w, x)
            s.ob(w, isinstance(x, L) and s.same(w, x, d, 32), 'C15', 'rs_calc_weak_sum gives %r instead of the digest of all the data' % (
                x,), f, rule='digest')
        for t, x in outs:
            s.resolve(t, lambda w: chk(w, x))

    # ---------------------------------------------------------------- matching and signatures
    def kinds(s):
        """the sum looked up while matching is the one a signature entry holds for the same data"""
        e = s.e
        fd = s.fn('weaksum_digest')
        fa = s.fn('rs_signature_add_block')
        fk = s.m.enum('rs_magic_number')
        for nm, kind in (('RS_MD4_SIG_MAGIC', 'rs'), ('RS_BLAKE2_SIG_MAGIC', 'rs'), ('RS_RK_MD4_SIG_MAGIC', 'rk'),
                         ('RS_RK_BLAKE2_SIG_MAGIC', 'rk')):
            if nm not in fk:
                raise AnalysisError('rs_magic_number lacks ' + nm)
            st = State()
            r, v = s.sum(st, kind)
            if kind == 'rs':
                r1, r2 = SYM.sym('s1 mod 2^16', 0, 65535), SYM.sym('s2 mod 2^16', 0, 65535)
                for f, lo in (('s1', r1), ('s2', r2)):
                    o, sz, _ = s.field(s.S[kind], f)
                    hi = SYM.sym(f + ' div 2^16', 0, (1 << (8 * sz - 16)) - 1) if sz > 2 else L(0)
                    s.put(st, r, s.off + o, sz, lo + hi.scale(65536))
                raw = r2.scale(65536) + r1
            else:
                raw = v['hash']
            sg = s.reg(st, 'sig', s.m.struct_size('rs_signature'), 'signature', default='lazy', structured=True)
            cnt, size = SYM.sym('blocks', 0, 1000), SYM.sym('room', 1, 1001)
            st.cs.add_ge0(size - cnt - 1)
            ssl = SYM.sym('strong_len', 1, 16)
            entries = s.reg(st, 'heapext', L(1 << 20), 'entries', default='lazy')
            for k, x in (('magic', L(fk[nm])), ('block_len', SYM.sym('block_len', 1, I31)), ('strong_sum_len', ssl), ('count', cnt),
                         ('size', size), ('block_sigs', Ptr(entries, L(0)))):
                s.setf(st, sg, 'rs_signature', k, x)
            ss = s.reg(st, 'buf', L(32), 'strong sum', default='lazy', const=True)
            w0 = s.field('rs_block_sig', 'weak_sum')[0]
            n = 0
            for t, x in s.run(fd, [Ptr(r, L(0))], st):
                for u, b in s.run(fa, [Ptr(sg, L(0)), raw, Ptr(ss, L(0))], t):
                    n += 1
                    ok = isinstance(b, Ptr) and b.r in u.mem and isinstance(x, L)
                    if ok:
                        y = e.load_raw(u, u.mem[b.r], u.cs.norm(b.o) + w0, 4, INT(32))
                        ok = isinstance(y, L) and s.same(u, x, y, 32)
                    s.ob(u, ok, 'C15', 'matching looks for %r where the signature entry of the same data holds %r (%s)' % (
                        x, y if isinstance(b, Ptr) else b, nm), fd, rule='digest')
            if not n:
                raise AnalysisError('weaksum_digest or rs_signature_add_block never returns')
