"""Specification of the signature-loading job: header validation, entries stored exactly and in order."""
from machine import *
import spec_sums
from spec_sums import MAGICS

MAXBLOCKS = 1 << 29


class LoadMachine(Machine):
    name = 'loadsig'
    part = None

    def start(s):
        e = s.e
        st = State()
        rid = e.new_region(st, 'outptr', 8, 'signature out-pointer', structured=True, default='undef')
        s.outp = rid
        st.mem[rid].id = rid
        s.S = s.m.struct_di('rs_signature')
        if s.S is None:
            raise AnalysisError('struct rs_signature not found')
        e.tagmap['heap'] = ('C11', 'C20')
        e.tagmap['overlap'] = ('C11',)
        outs = []
        for u in s.begin('rs_loadsig_begin', [Ptr(rid, L(0))], st):
            p = e.load_raw(u, u.mem[rid], L(0), 8, PTR)
            q = s.jget(u, 'signature', True)
            e.oblige(u, isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r and p.r is not None, ('C12',),
                     'loaded signature is not the one handed to the caller', fn=s.m.fn('rs_loadsig_begin'), rule='loadsig')
            del u.mem[rid]
            s.jset(u, 'sig_fsize', SYM.sym('sig_fsize', -1, 1 << 32))
            u.ghost.update(mode='hdr', c=L(0), nb=L(0))
            outs.append(u)
        s.explore(outs)
        if not any(k[1] == 'RS_DONE' for k in s.outcomes):
            raise AnalysisError('loadsig job never completes in the analysis')

    def callers(s, st):
        return (s.sig(st),)

    def sig(s, st):
        p = s.jget(st, 'signature', True)
        return p.r

    def sigf(s, st, nm, ptr=False):
        o, sz, _ = s.S[nm]
        v = s.e.load_raw(st, st.mem[s.sig(st)], L(o), sz, PTR if ptr else INT(8 * sz))
        return v

    def fresh_io(s, st, case=1):
        io = Machine.fresh_io(s, st, case)
        gh = st.ghost
        if gh['mode'] != 'hdr':
            st.cs.add_ge0(L(MAXBLOCKS) - gh['nb'])
            b = s.sigf(st, 'block_sigs', True)
            if isinstance(b, Ptr) and b.r is not None:
                w = st.w(b.r)
                w.cells = {}
                w.segs = ((L(0), gh['nb'].scale(s.stride(gh)), ('str', 'ENT', L(0))),)
        return io

    def templates(s, st):
        if st.ghost['mode'] == 'hdr':
            return ()
        sg = s.sig(st)
        so, co = s.S['size'][0], s.S['count'][0]
        out = [({('m', sg, so): 1, ('m', sg, co): -1}, 0), ({('m', sg, so): 1}, 0), ({('m', sg, so): -1}, (1 << 31) - 1)]
        b = s.sigf(st, 'block_sigs', True)
        if isinstance(b, Ptr) and b.r is not None:
            out.append(({('z', b.r): 1, ('m', sg, so): -s.stride(st.ghost)}, 0))
        return out

    def stride(s, gh):
        _, m, sl = gh['mode'].split(':')
        sl = int(sl)
        bs = s.m.struct_di('rs_block_sig')
        if bs is None:
            raise AnalysisError('struct rs_block_sig not found')
        return bs['strong_sum'][0] + (sl + 3) // 4 * 4

    def canon_extra(s, st):
        for rid in list(st.mem):
            if st.mem[rid].kind == 'heap':
                st.w(rid).segs = ()
        if st.ghost['mode'] != 'hdr':
            b = s.sigf(st, 'block_sigs', True)
            if isinstance(b, Ptr) and b.r is not None:
                st.w(b.r).cells = {}

    def hdr(s, st):
        """documented meaning of the 12 header bytes"""
        e = s.e
        mg, bl, sl = s.be(st, 0, 4), s.be(st, 4, 4), s.be(st, 8, 4)
        m = None
        for k in MAGICS:
            if e.decide_eq(st, mg - k):
                m = k
                break
        blok = e.decide(st, bl - 1) and e.decide(st, L((1 << 31) - 1) - bl)
        if m is None:
            slok = e.decide(st, sl - 1) and e.decide(st, L(32) - sl)
        else:
            slok = e.decide(st, sl - 1) and e.decide(st, L(MAGICS[m][2]) - sl)
        return m, bl, sl, blok, slok

    def spec_step(s, g, t, kind, rec, f):
        e = s.e
        cs = t.cs
        gh = t.ghost
        io = rec.io
        e.oblige(t, cs.prove(-rec.out - rec.wl - rec.n), ('C12', 'C11'), 'loading a signature produces output', fn=f, rule='loadsig')
        adv = rec.P - io.P
        c = cs.norm(gh['c'] + adv)
        if gh['mode'] == 'hdr':
            if not e.oblige(t, cs.prove(L(12) - c), ('C11', 'C02'), 'more than the header consumed before validation', fn=f,
                            rule='header'):
                return False
            s.keep_bytes(t, c)
            if not e.decide(t, c - 12):
                gh['c'] = c
                gh['P'] = rec.P
                return True
            sf = s.jget(t, 'statefn', True)
            m, bl, sl, blok, slok = s.hdr(t)
            b = None
            if not e.oblige(t, m is not None, ('C11',), 'signature with unknown magic number accepted', fn=f, rule='header'):
                return False
            if not e.oblige(t, blok, ('C11',), 'signature with block length outside 1..2^31-1 accepted', fn=f, rule='header'):
                return False
            if not e.oblige(t, slok, ('C11',), 'signature with strong-sum length outside 1..%d accepted' % MAGICS[m][2], fn=f,
                            rule='header'):
                return False
            n = cs.norm(sl)
            if not n.isconst():
                for k in range(1, MAGICS[m][2] + 1):
                    if e.decide_eq(t, n - k):
                        n = L(k)
                        break
            if s.part is not None and (m, (n.c - 1) // 16) != s.part:
                return False          # analysed by a sibling process
            gh['mode'] = 'e:%x:%d' % (m, n.c)
            gh['bl'] = bl
            s.drop_bytes(t)
            gh['c'] = L(0)
            gh['P'] = rec.P
            return s.check_sig(t, f, L(0))
        _, m, sl = gh['mode'].split(':')
        m, sl = int(m, 16), int(sl)
        if not e.oblige(t, cs.prove(L(4 + sl) - c), ('C12', 'C02'), 'more than one entry consumed (%r bytes)' % c, fn=f,
                        rule='entry'):
            return False
        if e.decide(t, L(3) - c):
            s.keep_bytes(t, c)
            gh['c'] = c
            gh['P'] = rec.P
            return s.check_sig(t, f, gh['nb'])
        bs = [s.hb(t, i) for i in range(4)]
        if e.decide(t, L(4 + sl - 1) - c):
            if not cs.prove_eq(c, L(4)):
                raise AnalysisError('partially consumed strong sum: not supported')
            s.keep_bytes(t, L(4))
            gh['c'] = c
            gh['P'] = rec.P
            return s.check_sig(t, f, gh['nb'])
        # a complete entry
        if not s.check_sig(t, f, gh['nb'] + 1):
            return False
        stride = s.stride(gh)
        off = gh['nb'].scale(stride)
        bp = s.sigf(t, 'block_sigs', True)
        BS = s.m.struct_di('rs_block_sig')
        wo, so = BS['weak_sum'][0], BS['strong_sum'][0]
        if not cs.prove(-off):
            pcs = s.merge(t, e.read_content(t, bp.r, L(0), off))
            ok = spec_sums.is_slice(t, pcs, 'ENT', L(0), off)
            e.oblige(t, ok, ('C12',), 'entries already stored are changed when an entry is added: %r' % (pcs,), fn=f,
                     rule='entry')
        pcs = s.merge(t, e.read_content(t, bp.r, off + so, L(sl)))
        ok = spec_sums.is_slice(t, pcs, 'L', io.P - gh['c'] + 4, L(sl))
        e.oblige(t, ok, ('C12',), 'stored strong sum is not the one read from the file: %r' % (pcs,), fn=f, rule='entry')
        wv = e.load_raw(t, t.mem[bp.r], cs.norm(off + wo), 4, INT(32))
        want = s.digest_form(t, m, bs)
        ok = isinstance(wv, L) and cs.prove_eq(e.to_u(t, wv, 32), want)
        e.oblige(t, ok, ('C12', 'C14'), 'stored weak sum is not the one read from the file in the form used for lookups',
                 fn=f, rule='entry')
        gh['nb'] = gh['nb'] + 1
        gh['c'] = L(0)
        gh['P'] = rec.P
        s.drop_bytes(t)
        s.stats(t, f)
        return True

    def digest_form(s, t, m, bs):
        """what weaksum_digest() gives for a weak sum whose wire form is the bytes bs"""
        e = s.e
        f = s.m.fn('weaksum_digest')
        if f is None:
            raise AnalysisError('function weaksum_digest not found')
        W = s.m.struct_di('weaksum')
        wk = s.m.enum('weaksum_kind_t')
        if MAGICS[m][0] == 0:
            R = s.m.struct_di('Rollsum')
            vals = {'s1': bs[2].scale(256) + bs[3], 's2': bs[0].scale(256) + bs[1]}
            k = wk['RS_ROLLSUM']
        else:
            R = s.m.struct_di('rabinkarp')
            vals = {'hash': bs[0].scale(1 << 24) + bs[1].scale(1 << 16) + bs[2].scale(256) + bs[3]}
            k = wk['RS_RABINKARP']
        if R is None or W is None:
            raise AnalysisError('weak sum structures not found')
        u = t.copy()
        rid = e.new_region(u, 'stack', s.m.struct_size('weaksum'), 'weaksum', default='undef')
        u.mem[rid].cells[W['kind'][0]] = (W['kind'][1], L(k))
        for n, v in vals.items():
            o, sz, _ = R[n]
            u.mem[rid].cells[W['sum'][0] + o] = (sz, v)
        e.mute += 1
        try:
            r = e.call(u, f, [Ptr(rid, L(0))])
        finally:
            e.mute -= 1
        if len(r) != 1:
            raise AnalysisError('weaksum_digest is not straight-line for a known kind')
        for c in r[0][0].cs.ineq:
            pass
        v = r[0][1]
        t.cs = r[0][0].cs          # definitions of the quotients introduced
        return e.to_u(t, v, 32)

    def check_sig(s, t, f, nb):
        e = s.e
        cs = t.cs
        gh = t.ghost
        _, m, sl = gh['mode'].split(':')
        ok = True
        for nm, want in (('magic', L(int(m, 16))), ('block_len', gh['bl']), ('strong_sum_len', L(int(sl))), ('count', nb)):
            v = s.sigf(t, nm)
            k = isinstance(v, L) and cs.prove_eq(v, want)
            ok &= e.oblige(t, k, ('C12',), 'loaded signature field %s is %r, file says %r' % (nm, v, want), fn=f, rule='loadsig')
        size = s.sigf(t, 'size')
        bp = s.sigf(t, 'block_sigs', True)
        k = isinstance(size, L) and cs.prove(size - nb)
        ok &= e.oblige(t, k, ('C11',), 'more entries than allocated', fn=f, rule='storage')
        if isinstance(bp, Ptr) and bp.r is not None:
            r = t.mem[bp.r]
            ok &= e.oblige(t, not r.freed and cs.prove_eq(bp.o, L(0)) and
                           cs.prove(r.size - size.scale(s.stride(gh))), ('C11', 'C20'), 'entry storage smaller than its recorded size: %r < %r' % (
                               r.size, size.scale(s.stride(gh))), fn=f, rule='storage')
        else:
            ok &= e.oblige(t, isnull(bp) and cs.prove(-size), ('C11', 'C20'), 'no storage although a size is recorded', fn=f,
                           rule='storage')
        hp = s.sigf(t, 'hashtable', True)
        e.oblige(t, isnull(hp), ('C12', 'C19'), 'hash table pointer of a freshly loaded signature is not null', fn=f, rule='loadsig')
        return ok

    def stats(s, t, f):
        D = s.m.struct_di('rs_stats')
        base = s.F['stats'][0]
        for nm, want in (('sig_blocks', t.ghost['nb']), ('block_len', t.ghost['bl'])):
            o, sz, _ = D[nm]
            v = s.e.load_raw(t, t.mem[s.job], L(base + o), sz, INT(8 * sz))
            ok = isinstance(v, L) and (t.cs.prove_eq(v, want) or (
                t.cs.norm(v - want).isconst() and t.cs.norm(v - want).c % (1 << (8 * sz)) == 0))
            s.e.oblige(t, ok, ('C25',), 'statistic %s is %r, work done is %r' % (nm, v, want), fn=f, rule='stats')

    def spec_final(s, g, t, kind, v, rec, f):
        e = s.e
        cs = t.cs
        gh = t.ghost
        io = rec.io
        c = cs.norm(gh['c'] + rec.P - io.P)
        left = rec.sav + rec.ain
        if gh['mode'] == 'hdr':
            if kind == 'RS_INPUT_ENDED':
                ok = cs.prove(rec.eof - 1) and cs.prove(L(11) - c - left)
                e.oblige(t, ok, ('C11',), 'end of input reported although the signature header is complete', fn=f,
                         rule='truncation')
            elif kind == 'RS_BAD_MAGIC':
                ok = cs.prove(c - 4)
                if ok:
                    mg = s.be(t, 0, 4)
                    ok = not any(cs.feasible_with([mg - k, L(k) - mg]) for k in MAGICS)
                e.oblige(t, ok, ('C11',), 'bad-magic error for a known signature kind', fn=f, rule='header')
            elif kind in ('RS_CORRUPT', 'RS_PARAM_ERROR'):
                s.keep_bytes(t, c)
                c = cs.norm(c)
                bad = False
                if cs.prove(c - 8):
                    bl = s.be(t, 4, 4)
                    if not (e.decide(t, bl - 1) and e.decide(t, L((1 << 31) - 1) - bl)):
                        bad = True
                if not bad and cs.prove(c - 12):
                    m, bl, sl, blok, slok = s.hdr(t)
                    # only the documented bad-magic error may be given when just the magic is wrong
                    bad = not blok or not slok
                e.oblige(t, bad, ('C11',), '%s for a signature header whose lengths are valid' % kind, fn=f, rule='header')
            else:
                e.oblige(t, False, ('C11',), 'loading ends with %s inside the signature header' % kind, fn=f, rule='truncation')
            return
        _, m, sl = gh['mode'].split(':')
        sl = int(sl)
        if kind == 'RS_DONE':
            ok = cs.prove(rec.eof - 1) and cs.prove(-c) and cs.prove(-left)
            e.oblige(t, ok, ('C11',), 'signature that ends inside an entry is accepted (entry bytes seen: %r)' % cs.norm(c + left),
                     fn=f, rule='truncation')
            s.check_sig(t, f, gh['nb'])
        elif kind == 'RS_INPUT_ENDED':
            ok = cs.prove(rec.eof - 1) and cs.prove(L(3 + sl) - c - left) and cs.prove(c + left - 1)
            e.oblige(t, ok, ('C11',), 'end of input reported although the entry is complete', fn=f, rule='truncation')
        else:
            e.oblige(t, False, ('C11',), 'loading ends with unexpected result %s' % kind, fn=f, rule='result')
