"""Summaries of the checksum entry points, used by the job analyses.  Their own bodies are
decided by the checksum analyses (C15, C28)."""
from machine import *

MAGICS = {0x72730136: (0, 0, 16), 0x72730137: (0, 1, 32), 0x72730146: (1, 0, 16), 0x72730147: (1, 1, 32)}
# magic -> (weak kind: 0 rollsum / 1 rabinkarp, strong kind: 0 md4 / 1 blake2, maximum strong length)


def kinds(mod):
    wk = mod.enum('weaksum_kind_t')
    sk = mod.enum('strongsum_kind_t')
    for n in ('RS_ROLLSUM', 'RS_RABINKARP'):
        if n not in wk:
            raise AnalysisError('weaksum_kind_t lacks ' + n)
    for n in ('RS_MD4', 'RS_BLAKE2'):
        if n not in sk:
            raise AnalysisError('strongsum_kind_t lacks ' + n)
    return {wk['RS_ROLLSUM']: 0, wk['RS_RABINKARP']: 1}, {sk['RS_MD4']: 0, sk['RS_BLAKE2']: 1}


def install(eng, mod):
    """rs_calc_weak_sum / rs_calc_strong_sum as functions of (kind, content)"""
    for need in ('rs_calc_weak_sum', 'rs_calc_strong_sum'):
        if mod.fn(need) is None:
            raise AnalysisError('function %s not found' % need)
    WK, SK = kinds(mod)

    def kind(e, st, v, tab, ins, what):
        v = st.cs.norm(e.to_u(st, v, 32))
        if not v.isconst():
            for k in tab:
                if e.decide_eq(st, v - k):
                    return tab[k]
            return None
        return tab.get(v.c)

    def content(e, st, buf, n, ins):
        n = e.to_u(st, n, 64)
        if st.cs.prove(-n):
            return n, []
        pcs = e.read_content(st, buf.r, buf.o, n) if isinstance(buf, Ptr) and buf.r is not None else None
        if not e.check_access(st, buf, n, False, ins):
            return n, None
        return n, merge_pieces(st, pcs)

    def weak(e, st, a, ins, f):
        k = kind(e, st, a[0], WK, ins, 'weak')
        n, pcs = content(e, st, a[1], a[2], ins)
        if st.dead:
            return []
        w = SYM.sym('weak', 0, (1 << 32) - 1)
        st.event('weak', k, pcs, n, w, ins)
        return [(st, w)]

    def strong(e, st, a, ins, f):
        k = kind(e, st, a[0], SK, ins, 'strong')
        n, pcs = content(e, st, a[1], a[2], ins)
        if st.dead:
            return []
        nb = 16 if k == 0 else 32
        if not e.check_access(st, a[3], L(nb), True, ins):
            return []
        sid = ('strong', k, next_id())
        STRONGS[sid] = (k, pcs, n)
        e.write_content(st, a[3].r, a[3].o, [(L(nb), ('str', sid, L(0)))], L(nb))
        st.event('strong', k, pcs, n, sid, ins)
        return [(st, None)]
    eng.summaries['rs_calc_weak_sum'] = weak
    eng.summaries['rs_calc_strong_sum'] = strong


STRONGS = {}


def next_id():
    return len(STRONGS)


def merge_pieces(st, pieces):
    if pieces is None:
        return None
    cs = st.cs
    out = []
    for ln, src in pieces:
        if cs.prove(-ln):
            continue
        if out:
            l0, s0 = out[-1]
            if s0[0] == src[0] and s0[0] in ('str', 'snap') and s0[1] == src[1] and cs.prove_eq(s0[2] + l0, src[2]):
                out[-1] = (l0 + ln, s0)
                continue
        out.append((ln, src))
    return out


def is_slice(st, pcs, stream, pos, n):
    cs = st.cs
    return pcs is not None and len(pcs) == 1 and pcs[0][1][0] == 'str' and pcs[0][1][1] == stream and \
        cs.prove_eq(pcs[0][1][2], pos) and cs.prove_eq(pcs[0][0], n)
