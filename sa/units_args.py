"""Signature parameter defaults and validation."""
from engine import *
from units import Unit, RS, I31

KINDS = {0x72730136: 16, 0x72730137: 32, 0x72730146: 16, 0x72730147: 32}
RECOMMENDED, DEF_BLOCK, DEF_MIN = 0x72730147, 2048, 12
U64 = (1 << 64) - 1


class Args(Unit):
    """rs_sig_args and rs_signature_init for every argument"""
    name = 'args'
    tags = ('C24',)

    def start(s):
        s.ln2()
        e = s.e
        s.fn('rs_long_sqrt')
        e.summaries['rs_long_ln2'] = s.hln2
        e.summaries['rs_long_sqrt'] = s.hsqrt
        f = s.fn('rs_sig_args')
        done = 0
        # partition: file size unknown / known, kind
        for known in (False, True):
            for kind in (None, 0) + tuple(KINDS):
                st = State()
                fs = SYM.sym('old_fsize', 0, 1 << 62) if known else SYM.sym('old_fsize', -(1 << 63), -1)
                sts = [(st, L(kind))]
                if kind is None:
                    mg = SYM.sym('magic', -(1 << 31), I31)
                    sts = [(u, mg) for u, k in s.split(st, mg, [0] + sorted(KINDS)) if k is None]
                for st, mg in sts:
                    bl, sl = SYM.sym('block_len', 0, U64), SYM.sym('strong_len', 0, U64)
                    ps = []
                    for nm, w, v in (('magic', 4, s.e.to_u(st, mg, 32)), ('block_len', 8, bl), ('strong_len', 8, sl)):
                        r = s.reg(st, 'buf', w, nm, structured=True)
                        s.put(st, r, 0, w, v)
                        ps.append(r)
                    for t, v in s.run(f, [fs] + [Ptr(r, L(0)) for r in ps], st):
                        for w, k in s.resolve(t, lambda w: s.check(w, f, v, known, kind, fs, bl, sl, ps)):
                            done += k or 0
        if not done:
            raise AnalysisError('rs_sig_args never succeeds')
        s.init()

    def ln2(s):
        """rs_long_ln2 on each interval [2^k, 2^(k+1)-1] gives exactly k"""
        f = s.fn('rs_long_ln2')
        for k in range(0, 63):
            st = State()
            for t, v in s.run(f, [SYM.sym('v', 1 << k, (2 << k) - 1)], st):
                s.ob(t, t.cs.prove_eq(s.s32(t, v), L(k)), 'C24', 'rs_long_ln2 is not the binary logarithm on [2^%d, 2^%d)' % (
                    k, k + 1), f, rule='ln2')

    def hln2(s, e, st, a, ins, f):
        v = st.cs.norm(a[0])
        s.ob(st, st.cs.prove(v - 1), 'C24', 'logarithm of a number that may not be positive', ins=ins, rule='ln2')
        lo, hi = st.cs.interval(v)
        r = SYM.term(('ln2', v.key()), 'ln2', 0, 62)
        st.event('ln2', v, r)
        return [(st, r)]

    def hsqrt(s, e, st, a, ins, f):
        v = e.to_s(st, a[0], 64)
        s.ob(st, st.cs.prove(v), 'C24', 'square root of a negative number', ins=ins, rule='sqrt')
        r = SYM.term(('sqrt', v.key()), 'sqrt', 0, I31)
        # chords of the square root at 256: v >= 65536 implies root >= 256
        if e.decide(st, v - 65536):
            st.cs.add_ge0(r - 256)
        else:
            st.cs.add_ge0(L(255) - r)
        st.event('sqrt', v, r)
        return [(st, r)]

    def val(s, w, rid):
        r = w.mem[rid]
        return w.cs.norm(s.e.load_raw(w, r, L(0), r.size.c, INT(8 * r.size.c)))

    def check(s, w, f, v, known, kind, fs, bl, sl, ps):
        e = s.e
        cs = w.cs
        v = s.s32(w, v)
        if kind is None:
            s.ob(w, cs.prove_eq(v, L(RS['RS_BAD_MAGIC'])), 'C24', 'unknown kind is not reported as bad magic', f, rule='kind')
            return 0
        m = kind or RECOMMENDED
        mx = KINDS[m]
        perr = L(RS['RS_PARAM_ERROR'])
        if e.decide(w, bl - (1 << 31)):
            s.ob(w, cs.prove_eq(v, perr), 'C24', 'block length that does not fit an int is not refused', f, rule='block_len')
            return 0
        if e.decide(w, sl - mx - 1) and not e.decide_eq(w, sl - U64):
            s.ob(w, cs.prove_eq(v, perr), 'C24', 'strong length above the maximum of kind %#x is not refused' % m, f,
                 rule='strong_len')
            return 0
        s.ob(w, cs.prove_eq(v, L(RS['RS_DONE'])), 'C24', 'valid parameters are refused (kind %#x)' % m, f, rule='valid')
        if not cs.prove_eq(v, L(RS['RS_DONE'])):
            return 0
        om, ob, os_ = (s.val(w, r) for r in ps)
        s.ob(w, cs.prove_eq(om, L(m)), 'C24', 'kind in force is not the one asked for or recommended', f, rule='kind')
        if e.decide_eq(w, bl):
            if not known:
                ok = cs.prove_eq(ob, L(DEF_BLOCK))
            elif e.decide(w, L(65536) - fs):
                ok = cs.prove_eq(ob, L(256))
            else:
                rt = [x for x in w.events() if x[0] == 'sqrt' and cs.prove_eq(x[1], fs)]
                ok = bool(rt)
                if ok:
                    q, r = e.divmod(w, rt[0][2], 128)
                    ok = cs.prove_eq(ob, q.scale(128)) and cs.prove(ob - 256)
            s.ob(w, ok, 'C24', 'block length in force is not the recommended one', f, rule='block_len')
            blen = ob
        else:
            s.ob(w, cs.prove_eq(ob, bl), 'C24', 'block length in force is not the one asked for', f, rule='block_len')
            blen = bl
        if e.decide_eq(w, sl):
            ok = cs.prove_eq(os_, L(mx))
        elif e.decide_eq(w, sl - U64):
            if not known:
                ok = cs.prove_eq(os_, L(DEF_MIN))
            else:
                ok = s.minimum(w, fs, blen, os_, mx)
        else:
            ok = cs.prove_eq(os_, sl)
        s.ob(w, ok, 'C24', 'strong length in force is not the one asked for, recommended or minimal: %r' % os_, f,
             rule='strong_len')
        return 1

    def minimum(s, w, fs, blen, got, mx):
        """2 bytes plus the bits of the file length plus 16 MiB and of the number of blocks, rounded up to bytes"""
        e = s.e
        cs = w.cs
        a = b = None
        q = e.divsym(w, fs, blen, 64, True, None)
        for x in w.events():
            if x[0] == 'ln2':
                if cs.prove_eq(x[1], fs + (1 << 24)):
                    a = x[2]
                elif cs.prove_eq(x[1], q + 1):
                    b = x[2]
        if a is None or b is None:
            return False
        d, r = e.divmod(w, a + b + 7, 8)
        want = d + 2
        if e.decide(w, L(mx) - want):
            return cs.prove_eq(got, want)
        return cs.prove_eq(got, L(mx))

    def init(s):
        """the in-memory signature holds the parameters in force"""
        e = s.e
        f = s.fn('rs_signature_init')
        n = 0
        for kind in (0,) + tuple(KINDS):
            for part in ('default', 'minus1', 'given'):
                st = State()
                r = s.reg(st, 'sig', s.m.struct_size('rs_signature'), 'signature', structured=True)
                bl = SYM.sym('block_len', 0, I31)
                mx = KINDS[kind or RECOMMENDED]
                sl = {'default': L(0), 'minus1': L(U64), 'given': SYM.sym('strong_len', 1, mx)}[part]
                fsz = SYM.sym('sig_fsize', -1, 1 << 33)
                for t, v in s.run(f, [Ptr(r, L(0)), L(kind), bl, sl, fsz], st):
                    def chk(w):
                        cs = w.cs
                        if not s.ob(w, cs.prove_eq(s.s32(w, v), L(0)), 'C24', 'valid parameters are refused', f, rule='init'):
                            return
                        wb = L(DEF_BLOCK) if e.decide_eq(w, bl) else bl
                        ws = {'default': L(mx), 'minus1': L(DEF_MIN), 'given': sl}[part]
                        ok = cs.prove_eq(s.getf(w, r, 'rs_signature', 'magic'), L(kind or RECOMMENDED)) and \
                            cs.prove_eq(s.getf(w, r, 'rs_signature', 'block_len'), wb) and \
                            cs.prove_eq(s.getf(w, r, 'rs_signature', 'strong_sum_len'), ws) and \
                            cs.prove_eq(s.getf(w, r, 'rs_signature', 'count'), L(0))
                        s.ob(w, ok, 'C24', 'the signature does not hold the parameters in force', f, rule='init')
                        size = s.getf(w, r, 'rs_signature', 'size')
                        p = s.getf(w, r, 'rs_signature', 'block_sigs', True)
                        if isnull(p):
                            s.ob(w, cs.prove_eq(size, L(0)), ('C20', 'C11'), 'signature without storage claims room for '
                                 'entries', f, rule='init')
                        else:
                            ok = isinstance(p, Ptr) and p.r in w.mem
                            s.ob(w, ok and cs.prove(w.mem[p.r].size - mul(size, cs.norm(4 + ws))), ('C20', 'C11'),
                                 'storage does not cover the entries it is announced for', f, rule='init')
                    s.resolve(t, chk)
                    n += 1
        if not n:
            raise AnalysisError('rs_signature_init never returns')
