"""The strong checksums: the compression functions against the published algorithms, and the buffering
around them for every length and every partition of the data."""
from engine import *
from units import Unit, RS, I31
import vgraph
from vgraph import Value, PtrV

# RFC 1320
MD4_INIT = (0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476)
MD4_ROUNDS = (
    ('ch', 0, tuple(range(16)), (3, 7, 11, 19)),
    ('maj', 0x5a827999, (0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15), (3, 5, 9, 13)),
    ('par', 0x6ed9eba1, (0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15), (3, 9, 11, 15)))
# RFC 7693
B2_IV = (0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
         0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179)
B2_SIGMA = ((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15),
            (14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3),
            (11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4),
            (7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8),
            (9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13),
            (2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9),
            (12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11),
            (13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10),
            (6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5),
            (10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0))
B2_OUT = 32            # the digest length the signature format uses


def md4_compress(g, h, x):
    a, b, c, d = h
    for f, k, order, rot in MD4_ROUNDS:
        for i, j in enumerate(order):
            if f == 'ch':
                t = g.op('or', g.op('and', b, c), g.op('and', g.op('xor', b, g.k(32, -1)), d))
            elif f == 'maj':
                t = g.op('or', g.op('or', g.op('and', b, c), g.op('and', b, d)), g.op('and', c, d))
            else:
                t = g.op('xor', g.op('xor', b, c), d)
            n = g.rotl(g.lin(32, k, [(a, 1), (t, 1), (x[j], 1)]), rot[i % 4])
            a, b, c, d = d, n, b, c
    return [g.add(p, q) for p, q in zip((a, b, c, d), h)]


def b2_compress(g, h, m, t, f):
    k = [g.k(64, c) for c in B2_IV]
    v = list(h) + k[:4] + [g.op('xor', k[4 + i], y) for i, y in enumerate((t[0], t[1], f[0], f[1]))]

    def G(a, b, c, d, x, y):
        v[a] = g.add(g.add(v[a], v[b]), x)
        v[d] = g.rotl(g.op('xor', v[d], v[a]), 32)
        v[c] = g.add(v[c], v[d])
        v[b] = g.rotl(g.op('xor', v[b], v[c]), 40)
        v[a] = g.add(g.add(v[a], v[b]), y)
        v[d] = g.rotl(g.op('xor', v[d], v[a]), 48)
        v[c] = g.add(v[c], v[d])
        v[b] = g.rotl(g.op('xor', v[b], v[c]), 1)
    for r in range(12):
        s = [m[j] for j in B2_SIGMA[r % 10]]
        for i in range(4):
            G(i, 4 + i, 8 + i, 12 + i, s[2 * i], s[2 * i + 1])
        for i in range(4):
            G(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4, s[8 + 2 * i], s[9 + 2 * i])
    return [g.op('xor', g.op('xor', h[i], v[i]), v[i + 8]) for i in range(8)]


class Compress(Unit):
    """what the compression functions and the initial states compute, as expressions"""
    name = 'compress'
    tags = ('C28',)

    def start(s):
        s.md4()
        s.blake2()

    def cell(s, v, r, off, n):
        """the n-byte integer at an offset"""
        ps = []
        for k in range(n):
            x, b = v.rbyte(r, off + k)
            if not isinstance(x, int):
                return None
            ps += v.g.cut(v.g.pieces(x), 8 * b, 8)
        return v.g.cat(ps)

    def interpret(s, v, f, args):
        s.e.cov['functions'][f.src] = s.e.cov['functions'].get(f.src, 0) + 1
        try:
            v.call(f, args)
            ok = True
        except vgraph.Bad as b:
            s.ob(State(), False, 'C28', b.msg, ins=b.ins, rule='memory')
            ok = False
        for k, n in v.covered.items():
            s.e.cov['functions'][k] = s.e.cov['functions'].get(k, 0) + n
        s.e.cov['steps'] += v.steps
        return ok

    def equal(s, v, got, want, what, f):
        """equality of expressions; a difference is only reported with an input on which they differ"""
        if got == want:
            return s.ob(State(), True, 'C28', what, f, rule='value')
        g = v.g
        if got is not None and g.w(got) == g.w(want):
            import hashlib
            for k in range(40):
                a, b = vgraph.evaluate(g, [got, want], lambda n, w: int.from_bytes(
                    hashlib.sha256(('%d/%s' % (k, n)).encode()).digest(), 'little') if k else 0)
                if a != b:
                    break
            else:
                raise AnalysisError('%s: the value in the source (%s) could not be compared with the published algorithm' % (
                    what, g.show(got)))
        return s.ob(State(), False, 'C28', '%s is not the value of the published algorithm: %s instead of %s' % (
            what, g.show(got, 2) if got is not None else 'a pointer', g.show(want, 2)), f, rule='value')

    def state(s, v, struct, words, const=()):
        """a state object of arbitrary content: named words, the rest bytes"""
        g = v.g
        size = s.m.struct_size(struct)
        if size is None:
            raise AnalysisError('struct %s not found' % struct)
        p = v.region('state', size, default=lambda o: g.atom(8, 'state+%d' % o))
        for nm, off, n in words:
            for k in range(n):
                v.mem['state'][off + k] = (g.atom(8 * n, nm), k)
        return p

    def words(s, v, name, n, w, align):
        g = v.g
        p = v.region(name, n * w // 8, align=align, const=True)
        x = [g.atom(w, '%s[%d]' % (name, i)) for i in range(n)]
        for i in range(n):
            for k in range(w // 8):
                v.mem[name][i * w // 8 + k] = (x[i], k)
        return p, x

    def untouched(s, v, before, changed, what, f, tmp):
        bad = [o for o in before if o not in changed and v.mem['state'].get(o) != before[o]]
        new = [o for o in v.mem['state'] if o not in before and o not in changed]
        bad += [o for o in new if s.cell(v, 'state', o, 1) != v.g.atom(8, 'state+%d' % o)]
        s.ob(State(), not bad, 'C28', '%s also changes byte %s of the state' % (what, min(bad) if bad else '?'), f, rule='frame')
        ext = [r for r in v.written if r != 'state' and '#' not in r]
        s.ob(State(), not ext, 'C28', '%s also writes to %s' % (what, ext), f, rule='frame')

    def md4(s):
        f = s.m.fn('rs_mdfour_block') or s.m.fn('rs_mdfour64')
        if f is None or len(f.params) != 2:
            raise AnalysisError('the MD4 compression function was not found')
        F = [(n,) + tuple(s.field('rs_mdfour', n)[:2]) for n in 'ABCD']
        if any(n != 4 for _, _, n in F):
            raise AnalysisError('MD4 state words are not 32 bits wide')
        for align in (0, 1, 2, 3, 4, 8):
            v = Value(s.m)
            p = s.state(v, 'rs_mdfour', F)
            q, x = s.words(v, 'block', 16, 32, align)
            before = dict(v.mem['state'])
            if not s.interpret(v, f, [p, q]):
                return
            want = md4_compress(v.g, [v.g.atom(32, n) for n in 'ABCD'], x)
            for (n, o, k), w in zip(F, want):
                s.equal(v, s.cell(v, 'state', o, 4), w, 'MD4 chaining word %s (block at an address %d mod 16)' % (n, align), f)
            s.untouched(v, before, {o + k for _, o, n in F for k in range(n)}, 'MD4 compression', f, None)
        f = s.fn('rs_mdfour_begin')
        v = Value(s.m)
        p = s.state(v, 'rs_mdfour', [])
        if not s.interpret(v, f, [p]):
            return
        for (n, o, k), c in zip(F, MD4_INIT):
            s.equal(v, s.cell(v, 'state', o, 4), v.g.k(32, c), 'initial MD4 word %s' % n, f)
        for n in ('totalN', 'tail_len'):
            o, k = s.field('rs_mdfour', n)[:2]
            s.equal(v, s.cell(v, 'state', o, k), v.g.k(8 * k, 0), 'initial %s' % n, f)

    def blake2(s):
        f = s.m.fn('blake2b_compress')
        if f is None or len(f.params) != 2:
            raise AnalysisError('the BLAKE2b compression function was not found')
        S = 'blake2b_state__'
        F = []
        for nm, n in (('h', 8), ('t', 2), ('f', 2)):
            o, sz = s.field(S, nm)[:2]
            if sz != 8 * n:
                raise AnalysisError('BLAKE2b state field %s is not %d 64-bit words' % (nm, n))
            F += [('%s[%d]' % (nm, i), o + 8 * i, 8) for i in range(n)]
        v = Value(s.m)
        g = v.g
        p = s.state(v, S, F)
        q, m = s.words(v, 'block', 16, 64, 1)
        before = dict(v.mem['state'])
        if not s.interpret(v, f, [p, q]):
            return
        A = [g.atom(64, n) for n, _, _ in F]
        want = b2_compress(g, A[:8], m, A[8:10], A[10:])
        for (n, o, k), w in zip(F, want):
            s.equal(v, s.cell(v, 'state', o, 8), w, 'BLAKE2b chaining word %s' % n, f)
        s.untouched(v, before, {o + k for _, o, n in F[:8] for k in range(n)}, 'BLAKE2b compression', f, None)
        f = s.fn('blake2b_init')
        v = Value(s.m)
        p = s.state(v, S, [])
        if not s.interpret(v, f, [p, v.g.k(64, B2_OUT)]):
            return
        for i, (n, o, k) in enumerate(F):
            c = (B2_IV[i] ^ ((B2_OUT | 1 << 16 | 1 << 24) if i == 0 else 0)) if i < 8 else 0
            s.equal(v, s.cell(v, 'state', o, 8), v.g.k(64, c), 'initial BLAKE2b word %s' % n, f)
        for n, c in (('buflen', 0), ('outlen', B2_OUT), ('last_node', 0)):
            o, k = s.field(S, n)[:2]
            s.equal(v, s.cell(v, 'state', o, k), v.g.k(8 * k, c), 'initial BLAKE2b field %s' % n, f)


class Feed(Unit):
    """the buffering around the compression functions: from any state reached by feeding some data"""
    name = 'strong'
    tags = ('C28',)
    quickstep = 1

    def start(s):
        e = s.e
        for k in list(e.tagmap):
            if k not in ('freed', 'badfree'):
                e.tagmap[k] = ('C28', 'C20')
        e.rank_tags = ('C28', 'C17')
        e.load_hook = s.load
        s.T4 = s.m.struct_size('rs_mdfour')
        s.TB = s.m.struct_size('blake2b_state__')
        if not s.T4 or not s.TB:
            raise AnalysisError('checksum state types not found')
        if not (s.m.fn('rs_mdfour_block') or s.m.fn('rs_mdfour64')) or not s.m.fn('blake2b_compress'):
            raise AnalysisError('compression functions not found')
        for k in ('rs_mdfour_block', 'rs_mdfour64'):
            if s.m.fn(k):
                e.summaries[k] = s.md4
        e.summaries['blake2b_compress'] = s.b2
        s.F4 = [s.field('rs_mdfour', n)[0] for n in 'ABCD']
        s.FB = {n: s.field('blake2b_state__', n)[0] for n in ('h', 't', 'f')}
        e.summaries['rs_mdfour_update'] = s.begun(s.F4, 4, MD4_INIT)
        e.summaries['blake2b_update'] = s.begun([s.FB['h'] + 8 * i for i in range(8)], 8, s.binit())
        e.summaries['blake2b_init'] = s.init_b2
        s.n4 = s.nb = 0
        s.md4_update()
        for r in range(64):
            s.md4_result(r)
        s.b2_update()
        s.b2_final()
        for r in range(64):
            s.whole(0, r)
        s.whole(1, None)
        if not s.n4 or not s.nb:
            raise AnalysisError('no compression step was reached')

    # ---------------------------------------------------------------- chaining values
    def H(s, i, cp, k='H'):
        return Ptr((k, i), cp)

    def cp(s, st):
        """bytes compressed so far"""
        return st.cs.norm(st.ghost['CB'].scale(s.unit))

    def word(s, st, p, n):
        """a chaining word as a number: its bytes are unconstrained"""
        v = L(0)
        for k in range(n):
            v = v + SYM.term(('chain', p.r, st.cs.norm(p.o).key(), k), 'h%d.%d' % (p.r[1], k), 0, 255).scale(1 << (8 * k))
        return v

    def binit(s):
        return [c ^ ((B2_OUT | 1 << 16 | 1 << 24) if i == 0 else 0) for i, c in enumerate(B2_IV)]

    def ischain(s, v):
        return isinstance(v, Ptr) and isinstance(v.r, tuple) and v.r[0] in ('H', 'HF')

    def load(s, st, p, ty, ins):
        if not isinstance(p, Ptr) or p.r not in st.mem or ty.k != 'int':
            return None
        o = st.cs.norm(p.o)
        if not o.isconst():
            return None
        rid, o = s.e.redirect(st, p.r, o, 1)
        r = st.mem[rid]
        for k in range(8):
            c = r.cells.get(st.cs.norm(o).c - k)
            if c is not None:
                if c[0] > k and s.ischain(c[1]):
                    v = s.word(st, c[1], c[0])
                    if k:
                        v = s.e.shr(st, v, 8 * k)
                    return v
                return None
        return None

    def chained(s, st, md, offs, sz, init, what, ins):
        """the chaining words are those left by compressing everything so far"""
        cp = st.ghost['CB']
        for i, o in enumerate(offs):
            rid, o2 = s.e.redirect(st, md.r, st.cs.norm(md.o) + o, 1)
            c = st.mem[rid].cells.get(st.cs.norm(o2).c)
            v = c[1] if c is not None and c[0] == sz else None
            ok = s.ischain(v) and v.r == ('H', i) and st.cs.prove_eq(v.o, cp)
            if not ok and isinstance(v, L):
                ok = st.cs.prove_eq(cp, L(0)) and residue(st.cs.norm(v - init[i]), 8 * sz) == 0
            if not s.ob(st, ok, 'C28', '%s: chaining word %d is not the one left by the preceding blocks' % (what, i), ins=ins, rule='chain'):
                return False
        return True

    def setchain(s, st, md, offs, sz, k='H'):
        for i, o in enumerate(offs):
            rid, o2 = s.e.redirect(st, md.r, st.cs.norm(md.o) + o, 1)
            st.w(rid).cells[st.cs.norm(o2).c] = (sz, s.H(i, st.ghost['CB'], k))

    def content(s, st, p, n, want, what, ins):
        """bytes [p, p+n) are those the list `want` of (length, ('str'..)|('zero',)|('bytes',[L])) names"""
        cs = st.cs
        if not s.e.check_access(st, p, L(n), False, ins):
            return False
        want = [list(w) for w in want]
        got = s.e.read_content(st, p.r, p.o, L(n))
        for ln, src in got:
            ln = cs.norm(ln)
            while not cs.prove(-ln):
                while want and cs.prove(-cs.norm(L(0) + want[0][0])):
                    want.pop(0)
                if not want:
                    raise AnalysisError('more content than expected at %s' % what)
                if not cs.prove(ln - 1):
                    raise Fork([[('ge', ln - 1)], [('ge', -ln)]])
                wl, wsrc = want[0]
                wl = cs.norm(L(0) + wl)
                if not cs.prove(wl - 1):
                    raise Fork([[('ge', wl - 1)], [('ge', -wl)]])
                if src[0] == 'snap' and wsrc[0] != 'str':
                    o = cs.norm(src[2])
                    c = SNAPS[src[1]].get(o.c) if o.isconst() else None
                    k = c[0] if c is not None else 0
                    # a cell may span several expected pieces: take its bytes together
                    exp = L(0)
                    ok = isinstance(c[1] if c else None, L)
                    for j in range(k):
                        while want and cs.prove(-cs.norm(L(0) + want[0][0])):
                            want.pop(0)
                        if not want:
                            ok = False
                            break
                        w = want[0]
                        if w[1][0] == 'bytes':
                            exp = exp + w[1][1][0].scale(1 << (8 * j))
                            w[1] = ('bytes', w[1][1][1:])
                        elif w[1][0] != 'zero':
                            ok = False
                        w[0] = cs.norm(L(0) + w[0] - 1)
                    ok = ok and k and residue(cs.norm(c[1] - exp), 8 * k) == 0
                    if not ok:
                        s.ob(st, False, 'C28', '%s: the padding holds %r where %r belongs' % (what, c[1] if c else src, exp), ins=ins, rule='padding')
                        return False
                    src = s.e.src_shift(src, L(k))
                    ln = cs.norm(ln - k)
                    continue
                if cs.prove(wl - ln):
                    m = ln
                elif cs.prove(ln - wl):
                    m = wl
                else:
                    raise Fork([[('ge', wl - ln)], [('ge', ln - wl - 1)]])
                if wsrc[0] == 'str':
                    ok = src[0] == 'str' and src[1] == wsrc[1] and cs.prove_eq(src[2], wsrc[2])
                elif src[0] == 'zero':
                    ok = wsrc[0] == 'zero' or (m.isconst() and all(cs.prove_eq(b, L(0)) for b in wsrc[1][:m.c]))
                else:
                    ok = False
                if not s.ob(st, ok, 'C28', '%s: bytes %r of %s where bytes %r of %s belong' % (
                        what, cs.norm(src[2]) if len(src) > 2 else '', src[0], cs.norm(wsrc[2]) if len(wsrc) > 2 else '', wsrc[0] if wsrc[0] != 'str' else 'the data'),
                        ins=ins, rule='content'):
                    return False
                src = s.e.src_shift(src, m)
                want[0][0] = cs.norm(wl - m)
                if wsrc[0] == 'str':
                    want[0][1] = (wsrc[0], wsrc[1], cs.norm(wsrc[2] + m))
                elif wsrc[0] == 'bytes':
                    want[0][1] = ('bytes', wsrc[1][m.c:])
                ln = cs.norm(ln - m)
        return True

    # ---------------------------------------------------------------- compression steps
    def md4(s, e, st, a, ins, f):
        g = st.ghost
        cs = st.cs
        md, p = a
        if not s.chained(st, md, s.F4, 4, MD4_INIT, 'MD4 block', ins):
            st.dead = True
            return []
        cp = s.cp(st)
        if 'TOT' not in g:
            ok = s.content(st, p, 64, [(64, ('str', 'DATA', cp))], 'MD4 block', ins)
        else:
            # the message, one 1 bit, zeros, and the length in bits
            left = cs.norm(g['TOT'] - cp)
            if not left.isconst() and cs.prove_eq(left, L(s.rr)):
                cs.add_eq0(left - s.rr)
                left = cs.norm(left)
            if cs.prove(left - 64):
                want = [(64, ('str', 'DATA', cp))]
            elif not left.isconst():
                if cs.feasible_with([left - 64]):
                    raise Fork([[('ge', left - 64)], [('ge', L(63) - left)]])
                raise AnalysisError('remaining length not determined')
            else:
                pad = [L(0x80)] + [L(0)] * ((55 - s.rr) % 64) + s.len8
                d = left.c
                want = [(L(d), ('str', 'DATA', cp)), (64 - d, ('bytes', pad[:64 - d]))] if d >= 0 else [
                    (64, ('bytes', pad[-d:-d + 64]))]
                if len(pad) < 64 - d:
                    s.ob(st, False, 'C28', 'MD4 compresses more blocks than the padded message has', ins=ins, rule='padding')
                    st.dead = True
                    return []
            ok = s.content(st, p, 64, want, 'MD4 block', ins)
        if not ok:
            st.dead = True
            return []
        s.n4 += 1
        g['CB'] = cs.norm(g['CB'] + 1)
        s.setchain(st, md, s.F4, 4)
        return [(st, None)]

    def b2(s, e, st, a, ins, f):
        g = st.ghost
        cs = st.cs
        md, p = a
        H = [s.FB['h'] + 8 * i for i in range(8)]
        init = s.binit()
        if not s.chained(st, md, H, 8, init, 'BLAKE2b block', ins):
            st.dead = True
            return []
        cp = s.cp(st)

        def word(nm, i):
            v = e.load(st, Ptr(md.r, cs.norm(md.o) + s.FB[nm] + 8 * i), INT(64), ins)
            return cs.norm(e.to_u(st, v, 64)) if isinstance(v, L) else None
        t0, t1, f0, f1 = word('t', 0), word('t', 1), word('f', 0), word('f', 1)
        if any(x is None for x in (t0, t1, f0, f1)):
            raise AnalysisError('BLAKE2b counters not determined')
        full = (1 << 64) - 1
        s.ob(st, cs.prove_eq(t1, L(0)) and cs.prove_eq(f1, L(0)), 'C28', 'BLAKE2b block with high counter %r and node flag %r' % (t1, f1), ins=ins, rule='counter')
        if cs.prove_eq(f0, L(0)):
            ok = s.content(st, p, 128, [(128, ('str', 'DATA', cp))], 'BLAKE2b block', ins)
            ok &= s.ob(st, cs.prove_eq(t0, cp + 128), 'C28', 'BLAKE2b counts %r bytes after %r' % (t0, cs.norm(cp + 128)), ins=ins, rule='counter')
            k = 'H'
            step = 1
        elif cs.prove_eq(f0, L(full)):
            if 'TOT' not in g:
                s.ob(st, False, 'C28', 'a block is marked as the last one while data is being fed', ins=ins, rule='final')
                st.dead = True
                return []
            T = cs.norm(g['TOT'])
            left = cs.norm(T - cp)
            if not cs.prove(left) or not cs.prove(L(128) - left):
                s.ob(st, False, 'C28', 'the last BLAKE2b block covers %r bytes' % left, ins=ins, rule='final')
                st.dead = True
                return []
            if not cs.prove(left - 1) and not cs.prove_eq(T, L(0)):
                s.ob(st, False, 'C28', 'the last BLAKE2b block may be empty', ins=ins, rule='final')
            ok = s.content(st, p, 128, [(left, ('str', 'DATA', cp)), (L(128) - left, ('zero',))], 'last BLAKE2b block', ins)
            ok &= s.ob(st, cs.prove_eq(t0, T), 'C28', 'BLAKE2b counts %r of %r bytes' % (t0, T), ins=ins, rule='counter')
            k = 'HF'
            step = 0
            g['FIN'] = cs.norm(g.get('FIN', L(0)) + 1)
        else:
            s.ob(st, False, 'C28', 'BLAKE2b finalisation flag is %r' % f0, ins=ins, rule='final')
            ok = False
        if not ok:
            st.dead = True
            return []
        s.nb += 1
        g['CB'] = cs.norm(g['CB'] + step)
        s.setchain(st, md, H, 8, k)
        return [(st, None)]

    # ---------------------------------------------------------------- states reached by feeding T bytes
    def bytes_at(s, st, rid, off, n, pos):
        """content DATA[pos, pos+n) at [off, off+n)"""
        st.w(rid).segs = ((off, n, ('str', 'DATA', pos)),) if not n.isconst() or n.c else ()

    def md4_state(s, st, r=None):
        """any state after feeding CP + tail bytes, CP of them compressed in full blocks"""
        e = s.e
        md = s.reg(st, 'buf', L(s.T4), 'md4 state', structured=True)
        s.unit = 64
        cb = SYM.sym('blocks', 0, 1 << 54) if r is None else s.lengths(r)
        cp = cb.scale(64)
        t = L(r) if r is not None else SYM.sym('tail', 0, 63)
        st.ghost['CB'] = cb
        for i, o in enumerate(s.F4):
            st.w(md).cells[o] = (4, s.H(i, cb))
        s.setf(st, md, 'rs_mdfour', 'totalN', cp + t)
        s.setf(st, md, 'rs_mdfour', 'tail_len', t)
        o, sz, _ = s.field('rs_mdfour', 'tail')
        sub = e.subregion(st, md, o, sz)
        s.bytes_at(st, sub, L(0), t, cp)
        return md, cp, t

    def data(s, st, n, pos):
        rid = s.reg(st, 'buf', n, 'data', const=True)
        s.bytes_at(st, rid, L(0), n, pos)
        return rid

    def got(s, st, rid, struct, nm):
        o, sz, _ = s.field(struct, nm)
        v = s.e.load_raw(st, st.mem[rid], L(o), sz, INT(8 * sz))
        if isinstance(v, L):
            return st.cs.norm(s.e.to_u(st, v, 8 * sz))
        return v

    def md4_update(s):
        f = s.fn('rs_mdfour_update')
        st = State()
        md, cp, t = s.md4_state(st)
        n = SYM.sym('n', 0, 1 << 60)
        T = cp + t
        d = s.data(st, n, T)

        def chk(w):
            cs = w.cs
            g = s.cp(w)
            s.chained(w, Ptr(md, L(0)), s.F4, 4, MD4_INIT, 'rs_mdfour_update', None)
            x = s.got(w, md, 'rs_mdfour', 'totalN')
            s.ob(w, isinstance(x, L) and cs.prove_eq(x, T + n), 'C28', 'rs_mdfour_update counts %r bytes instead of %r' % (x, cs.norm(T + n)), f, rule='counter')
            x = s.got(w, md, 'rs_mdfour', 'tail_len')
            if not s.ob(w, isinstance(x, L) and cs.prove_eq(x, T + n - g) and cs.prove(x) and cs.prove(L(63) - x), 'C28',
                        'rs_mdfour_update leaves %r bytes in the tail, %r are not compressed' % (x, cs.norm(T + n - g)), f, rule='tail'):
                return
            o, sz, _ = s.field('rs_mdfour', 'tail')
            rid, o2 = s.e.redirect(w, md, L(o), 1)
            s.tail(w, rid, o2, x, g, 'rs_mdfour_update', f)
        for u, _ in s.run(f, [Ptr(md, L(0)), Ptr(d, L(0)), n], st):
            s.resolve(u, chk)

    def tail(s, w, rid, off, n, pos, what, f):
        cs = w.cs
        at = pos
        for ln, src in s.e.read_content(w, rid, off, n):
            ok = src[0] == 'str' and src[1] == 'DATA' and cs.prove_eq(src[2], at)
            if not s.ob(w, ok, 'C28', '%s keeps %s %r in the tail where byte %r of the data belongs' % (
                    what, src[0], cs.norm(src[2]) if len(src) > 2 else '', cs.norm(at)), f, rule='tail'):
                return
            at = at + ln

    def lengths(s, r):
        """64 K + r bytes of data for any K: the bytes of the length in bits are made explicit"""
        lo = SYM.sym('K mod 128', 0, 127)
        hi = [SYM.sym('length byte %d' % k, 0, 255 if k < 7 else 15) for k in range(2, 8)]
        k = lo
        for i, h in enumerate(hi):
            k = k + h.scale(1 << (7 + 8 * i))
        # 8*(64K + r) = 8r mod 256 + 256*(8r div 256 + 2 lo) + ...
        s.rr = r
        s.len8 = [L(8 * r % 256), lo.scale(2) + (8 * r // 256)] + hi
        return k

    def outbytes(s, w, rid, off, n, sz, k, what, f):
        """the first n bytes at off are the little-endian bytes of the chaining words"""
        cp = w.ghost['CB']
        for j in range(n):
            i, b = divmod(j, sz)
            exp = SYM.term(('chain', (k, i), w.cs.norm(cp).key(), b), 'h%d.%d' % (i, b), 0, 255)
            v = s.load(w, Ptr(rid, off + j), INT(8), None)
            if v is None:
                v = s.e.load_raw(w, w.mem[rid], w.cs.norm(off + j), 1, INT(8))
            ok = isinstance(v, L) and w.cs.prove_eq(s.e.to_u(w, v, 8), exp)
            if not s.ob(w, ok, 'C28', '%s: byte %d of the digest is %r' % (what, j, v), f, rule='digest'):
                return

    def begun(s, offs, sz, init):
        """before data is fed, the initial chaining words are the values after zero blocks"""
        def h(e, st, a, ins, f):
            if isinstance(a[0], Ptr) and a[0].r in st.mem and 'CB' in st.ghost and st.cs.prove_eq(st.ghost['CB'], L(0)):
                cells = []
                for i, o in enumerate(offs):
                    rid, o2 = e.redirect(st, a[0].r, st.cs.norm(a[0].o) + o, 1)
                    o2 = st.cs.norm(o2).c
                    c = st.mem[rid].cells.get(o2)
                    if c is None or c[0] != sz or not isinstance(c[1], L) or residue(st.cs.norm(c[1] - init[i]), 8 * sz) != 0:
                        break
                    cells.append((rid, o2))
                else:
                    for i, (rid, o2) in enumerate(cells):
                        st.w(rid).cells[o2] = (sz, s.H(i, L(0)))
            return None
        return h

    def init_b2(s, e, st, a, ins, f):
        """the state blake2b_init leaves is decided by Compress"""
        n = st.cs.norm(e.to_u(st, a[1], 64)) if isinstance(a[1], L) else None
        if n is None or n != B2_OUT or not isinstance(a[0], Ptr):
            return None
        md = a[0]
        S = 'blake2b_state__'
        if not e.check_access(st, md, L(s.TB), True, ins):
            return []

        def put(nm, i, sz, v):
            rid, o = e.redirect(st, md.r, st.cs.norm(md.o) + s.field(S, nm)[0] + i, sz)
            st.w(rid).cells[st.cs.norm(o).c] = (sz, v)
        for nm in ('h', 't', 'f', 'buf'):
            o, sz, _ = s.field(S, nm)
            if st.cs.norm(md.o) == 0 and st.mem[md.r].structured and st.mem[md.r].parent is None:
                e.subregion(st, md.r, o, sz)
        for i, c in enumerate(s.binit()):
            put('h', 8 * i, 8, L(c))
        for nm in 't', 'f':
            for i in range(2):
                put(nm, 8 * i, 8, L(0))
        for nm, c in (('buflen', 0), ('outlen', B2_OUT), ('last_node', 0)):
            put(nm, 0, s.field(S, nm)[1], L(c))
        return [(st, L(0))]

    def md4_result(s, r):
        f = s.fn('rs_mdfour_result')
        st = State()
        md, cp, t = s.md4_state(st, r)
        st.ghost['TOT'] = cp + r
        out = s.reg(st, 'buf', L(16), 'digest')
        for u, _ in s.run(f, [Ptr(md, L(0)), Ptr(out, L(0))], st):
            s.resolve(u, lambda w: s.digest4(w, out, cp, 'rs_mdfour_result', f))

    def digest4(s, w, out, cp, what, f):
        end = cp + s.rr + 1 + (55 - s.rr) % 64 + 8
        if s.ob(w, w.cs.prove_eq(s.cp(w), end), 'C28', '%s: %r of %r bytes of the padded message are compressed' % (
                what, s.cp(w), w.cs.norm(end)), f, rule='final'):
            s.outbytes(w, out, L(0), 16, 4, 'H', what, f)

    # ---- BLAKE2b
    def b2_state(s, st):
        e = s.e
        S = 'blake2b_state__'
        md = s.reg(st, 'buf', L(s.TB), 'blake2b state', structured=True)
        s.unit = 128
        cb = SYM.sym('blocks', 0, 1 << 53)
        cp = cb.scale(128)
        t = SYM.sym('buflen', 0, 128)
        # an empty buffer means that nothing has been fed
        st.ghost['CB'] = cb
        sub = {}
        for nm in ('h', 't', 'f', 'buf'):
            o, sz, _ = s.field(S, nm)
            sub[nm] = e.subregion(st, md, o, sz)
        for i in range(8):
            st.w(sub['h']).cells[8 * i] = (8, s.H(i, cb))
        for i in range(2):
            st.w(sub['t']).cells[8 * i] = (8, L(0) if i else cp)
            st.w(sub['f']).cells[8 * i] = (8, L(0))
        s.setf(st, md, S, 'buflen', t)
        s.setf(st, md, S, 'outlen', L(B2_OUT))
        s.setf(st, md, S, 'last_node', L(0))
        s.bytes_at(st, sub['buf'], L(0), t, cp)
        a, b = st, st.copy()
        a.cs.add_ge0(t - 1)
        b.cs.add_eq0(cp)
        b.cs.add_eq0(t)
        return md, cp, t, sub, (a, b)

    def b2_update(s):
        f = s.fn('blake2b_update')
        st = State()
        md, cp, t, sub, sts = s.b2_state(st)
        n = SYM.sym('n', 0, 1 << 60)
        S = 'blake2b_state__'
        H = [s.FB['h'] + 8 * i for i in range(8)]

        def chk(w):
            cs = w.cs
            T = cp + t + n
            g = s.cp(w)
            s.chained(w, Ptr(md, L(0)), H, 8, (0,) * 8, 'blake2b_update', None)
            for nm, want in (('t', (g, L(0))), ('f', (L(0), L(0)))):
                for i in range(2):
                    x = s.e.load_raw(w, w.mem[sub[nm]], L(8 * i), 8, INT(64))
                    s.ob(w, isinstance(x, L) and cs.prove_eq(s.e.to_u(w, x, 64), want[i]), 'C28', 'blake2b_update leaves %s[%d] = %r instead of %r' % (
                        nm, i, x, want[i]), f, rule='counter')
            x = s.got(w, md, S, 'buflen')
            ok = isinstance(x, L) and cs.prove_eq(x, T - g) and cs.prove(x) and cs.prove(L(128) - x)
            if not s.ob(w, ok, 'C28', 'blake2b_update leaves %r bytes buffered, %r are not compressed' % (x, cs.norm(T - g)), f, rule='tail'):
                return
            s.ob(w, cs.prove(x - 1) or cs.prove_eq(T, L(0)), 'C28', 'blake2b_update compresses the last block, which is left for the end', f, rule='final')
            for nm, c in (('outlen', B2_OUT), ('last_node', 0)):
                y = s.got(w, md, S, nm)
                s.ob(w, isinstance(y, L) and cs.prove_eq(y, L(c)), 'C28', 'blake2b_update changes %s' % nm, f, rule='frame')
            if not cs.prove(-x):
                if not cs.prove(x - 1):
                    raise Fork([[('ge', x - 1)], [('ge', -x)]])
                s.tail(w, sub['buf'], L(0), x, g, 'blake2b_update', f)
        for st in sts:
            d = s.data(st, n, cp + t)
            for u, _ in s.run(f, [Ptr(md, L(0)), Ptr(d, L(0)), n], st):
                s.resolve(u, chk)

    def b2_final(s):
        f = s.fn('blake2b_final')
        st = State()
        md, cp, t, sub, sts = s.b2_state(st)
        for st in sts:
            st.ghost['TOT'] = cp + t
            out = s.reg(st, 'buf', L(B2_OUT), 'digest')
            for u, x in s.run(f, [Ptr(md, L(0)), Ptr(out, L(0)), L(B2_OUT)], st):
                s.resolve(u, lambda w: s.digestb(w, out, x, 'blake2b_final', f))

    def digestb(s, w, out, x, what, f):
        if x is not None:
            s.ob(w, isinstance(x, L) and w.cs.prove_eq(x, L(0)), 'C28', '%s fails' % what, f, rule='final')
        if s.ob(w, w.ghost.get('FIN') is not None and w.ghost['FIN'] == 1, 'C28', '%s: the last block is compressed %r times' % (
                what, w.ghost.get('FIN', 0)), f, rule='final'):
            s.outbytes(w, out, L(0), B2_OUT, 8, 'HF', what, f)

    # ---- in one piece
    def whole(s, kind, r):
        f = s.fn('rs_calc_strong_sum')
        sk = s.m.enum('strongsum_kind_t')
        for n in ('RS_MD4', 'RS_BLAKE2'):
            if n not in sk:
                raise AnalysisError('strongsum_kind_t lacks ' + n)
        st = State()
        n = s.lengths(r).scale(64) + r if kind == 0 else SYM.sym('n', 0, 1 << 60)
        s.unit = 128 if kind else 64
        st.ghost['CB'] = L(0)
        st.ghost['TOT'] = n
        d = s.data(st, n, L(0))
        out = s.reg(st, 'buf', L(32), 'digest')
        what = 'rs_calc_strong_sum'
        for u, x in s.run(f, [L(sk['RS_BLAKE2' if kind else 'RS_MD4']), Ptr(d, L(0)), n, Ptr(out, L(0))], st):
            if kind:
                s.resolve(u, lambda w: s.digestb(w, out, None, what, f))
            else:
                s.resolve(u, lambda w: s.digest4(w, out, n - r, what, f))
