"""Specification of the signature job: header, one entry per block, parameter validation."""
from machine import *
import spec_sums
from spec_sums import MAGICS, is_slice

DEF_MAGIC, DEF_BLOCK, DEF_MIN_STRONG = 0x72730147, 2048, 12


def effective(s, st, magic, bl, sl):
    """documented effective parameters for unknown old file size: (error or None, magic, block, strong)"""
    e = s.e
    magic = e.to_u(st, magic, 32)
    m = None
    if e.decide_eq(st, magic):
        m = DEF_MAGIC
    else:
        for k in MAGICS:
            if e.decide_eq(st, magic - k):
                m = k
                break
    if m is None:
        return 'RS_BAD_MAGIC', None, None, None
    if e.decide_eq(st, bl):
        bl = L(DEF_BLOCK)
    mx = MAGICS[m][2]
    if e.decide_eq(st, sl):
        sl = L(mx)
    elif e.decide_eq(st, sl + 1):
        sl = L(DEF_MIN_STRONG)
    elif e.decide(st, sl - mx - 1):
        return 'RS_PARAM_ERROR', None, None, None
    return None, m, bl, sl


class SigMachine(Machine):
    name = 'signature'

    def start(s):
        e = s.e
        spec_sums.install(e, s.m)
        st = State()
        s.a_bl = SYM.sym('block_len', 0, (1 << 31) - 1)
        s.a_sl = SYM.sym('strong_len', -1, (1 << 31) - 1)
        s.a_mg = SYM.sym('magic', 0, (1 << 32) - 1)
        outs = []
        for neg in (False, True):
            t = State()
            sl = L(-1) if neg else s.a_sl
            if not neg:
                t.cs.add_ge0(s.a_sl)
            for u in s.begin('rs_sig_begin', [s.a_bl, sl, s.a_mg], t):
                u.ghost.update(mode='hdr', abl=s.a_bl, asl=sl, amg=s.a_mg, nb=L(0))
                outs.append(u)
        s.explore(outs)
        if not any(k[1] == 'RS_DONE' for k in s.outcomes):
            raise AnalysisError('signature job never completes in the analysis')

    def canon_extra(s, st):
        for rid in list(st.mem):
            if st.mem[rid].kind == 'heap':
                st.w(rid).segs = ()

    def be32(s, st, bs):
        if bs is None or len(bs) < 4 or any(not isinstance(b, L) for b in bs[:4]):
            return None
        return bs[0].scale(1 << 24) + bs[1].scale(1 << 16) + bs[2].scale(1 << 8) + bs[3]

    def spec_step(s, g, t, kind, rec, f):
        e = s.e
        cs = t.cs
        gh = t.ghost
        T = ('C10',)
        io = rec.io
        evs = t.events()
        e.oblige(t, cs.prove(-rec.n), T, 'signature job passes input through', fn=f, rule='entry')
        quiet = cs.prove(-rec.out) and cs.prove(-rec.wl)
        if gh['mode'] == 'hdr':
            if not e.oblige(t, cs.prove_eq(rec.P, io.P), T, 'input consumed before the header', fn=f, rule='header'):
                return False
            if quiet:
                return True
            err, m, bl, sl = effective(s, t, gh['amg'], gh['abl'], gh['asl'])
            if not e.oblige(t, err is None, ('C24', 'C10'), 'header written for invalid parameters (%s expected)' % err,
                            fn=f, rule='params'):
                return False
            bs = s.bytes_of(t, rec.pieces)
            ok = bs is not None and len(bs) == 12 and all(isinstance(b, L) for b in bs)
            if not e.oblige(t, ok, T, 'signature header is not 12 bytes: %r' % (rec.pieces,), fn=f, rule='header'):
                return False
            got = [s.be32(t, bs[i:i + 4]) for i in (0, 4, 8)]
            for nm, v, w in (('magic', got[0], L(m)), ('block length', got[1], bl), ('strong length', got[2], sl)):
                ok = v is not None and cs.prove_eq(v, w)
                e.oblige(t, ok, ('C10', 'C24'), 'header %s is %r, parameters in force give %r' % (nm, v, w), fn=f,
                         rule='header')
                if not ok:
                    return False
            for k in ('amg', 'abl', 'asl'):
                gh.pop(k)
            gh['mode'] = 'gen:%x' % m
            gh['bl'] = bl
            gh['sl'] = sl
            return True
        m = int(gh['mode'][4:], 16)
        adv = cs.norm(rec.P - io.P)
        if quiet:
            # nothing written: nothing may be consumed either
            return e.oblige(t, cs.prove_eq(rec.P, io.P), ('C10', 'C02'), 'input consumed (%r) without a signature entry' % adv,
                            fn=f, rule='entry')
        ok = cs.prove(adv - 1) and cs.prove(gh['bl'] - adv)
        if not e.oblige(t, ok, T, 'entry written for %r bytes with block length %r' % (adv, gh['bl']), fn=f, rule='entry'):
            return False
        if not cs.prove_eq(adv, gh['bl']):
            ok = cs.prove(rec.eof - 1) and cs.prove(-rec.sav - rec.ain)
            if not ok and e.decide_eq(t, adv - gh['bl']):
                ok = True
            if not e.oblige(t, ok, T, 'short block of %r bytes before the end of input' % adv, fn=f, rule='entry'):
                return False
        bs = s.bytes_of(t, rec.pieces)
        good = bs is not None and len(bs) >= 5 and all(isinstance(b, L) for b in bs[:4])
        if not e.oblige(t, good, T, 'entry is not weak sum and strong sum: %r' % (rec.pieces,), fn=f, rule='entry'):
            return False
        wv = s.be32(t, bs)
        wk, sk, mx = MAGICS[m]
        w = [x for x in evs if x[0] == 'weak']
        ok = any(x[1] == wk and is_slice(t, x[2], 'L', io.P, adv) and cs.prove_eq(wv, x[4]) for x in w)
        e.oblige(t, ok, T, 'first four bytes are not the big-endian weak sum of the block', fn=f, rule='entry')
        rest = bs[4:]
        ok = len(rest) == 1 and rest[0][0] == 'data' and isinstance(rest[0][1], tuple) and rest[0][1][0] == 'strong' and \
            cs.prove_eq(rest[0][2], L(0)) and cs.prove_eq(rest[0][3], gh['sl'])
        if ok:
            k, pcs, n = spec_sums.STRONGS[rest[0][1]]
            ok = k == sk and is_slice(t, pcs, 'L', io.P, adv)
        e.oblige(t, ok, T, 'entry does not end with the first %r bytes of the strong sum of the block: %r' % (gh['sl'], rest),
                 fn=f, rule='entry')
        gh['nb'] = gh['nb'] + 1
        gh['P'] = rec.P
        s.stats(t, f)
        return True

    def stats(s, t, f):
        D = s.m.struct_di('rs_stats')
        base = s.F['stats'][0]
        for nm, want in (('sig_blocks', t.ghost['nb']), ('block_len', t.ghost['bl'])):
            o, sz, _ = D[nm]
            v = s.e.load_raw(t, t.mem[s.job], L(base + o), sz, INT(8 * sz))
            ok = isinstance(v, L) and (t.cs.prove_eq(v, want) or (
                t.cs.norm(v - want).isconst() and t.cs.norm(v - want).c % (1 << (8 * sz)) == 0))
            s.e.oblige(t, ok, ('C25',), 'statistic %s is %r, work done is %r' % (nm, v, want), fn=f, rule='stats')

    def spec_final(s, g, t, kind, v, rec, f):
        e = s.e
        cs = t.cs
        gh = t.ghost
        io = rec.io
        if gh['mode'] == 'hdr':
            err = effective(s, t, gh['amg'], gh['abl'], gh['asl'])[0]
            e.oblige(t, err is not None and kind == err, ('C24', 'C10'),
                     'signature job ends with %s in the header, documented result is %s' % (kind, err or 'success'), fn=f,
                     rule='params')
            return
        ok = kind == 'RS_DONE' and cs.prove(rec.eof - 1) and cs.prove(-rec.sav - rec.ain)
        e.oblige(t, ok, ('C10',), 'signature job ends with %s before the end of the input' % kind, fn=f, rule='end')
        e.oblige(t, cs.prove(-rec.out - rec.wl - rec.n) and cs.prove_eq(rec.P, io.P), ('C10',),
                 'output or consumption in the step that ends the signature job', fn=f, rule='end')
