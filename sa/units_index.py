"""The index of a loaded signature: construction, insertion, lookup."""
from engine import *
from units import Unit, RS, I31

U32 = (1 << 32) - 1
MAXBLOCKS = I31
MAXTABLE = 1 << 30       # the size of a table is an int

KINDS = {0x72730136: ('RS_MD4', 16), 0x72730137: ('RS_BLAKE2', 32), 0x72730146: ('RS_MD4', 16), 0x72730147: ('RS_BLAKE2', 32)}


class Index(Unit):
    name = 'index'
    tags = ('C14',)
    part = None          # table sizes analysed by this process

    def start(s):
        e = s.e
        for k in list(e.tagmap):
            if k not in ('freed', 'badfree', 'null'):
                e.tagmap[k] = ('C14',)
        e.tagmap['null'] = ('C14', 'C20')
        s.T = 'hashtable'
        s.kt = s.field(s.T, 'ktable')[0]
        s.bw = s.field('rs_block_sig', 'weak_sum')[0]
        s.bs = s.field('rs_block_sig', 'strong_sum')[0]
        e.rank_tags = ('C14', 'C17')
        e.models['memcmp'] = s.memcmp
        e.summaries['rs_calc_strong_sum'] = s.strong
        e.part = (lambda fn, lp: s.active, s.lkey, s.lcanon, s.ltmpl)
        s.active = False
        if s.part is None or s.part == 0:
            s.build()
        tabs = s.tables()
        n = 0
        for i, (t, tp, nn) in enumerate(tabs):
            if s.part is None or i % 4 == s.part:
                s.table(t, tp, nn, i)
                n += 1
        if not n:
            raise AnalysisError('no table size analysed')

    # ---------------------------------------------------------------- construction
    def tables(s):
        """tables as _hashtable_new makes them, one per table size"""
        e = s.e
        f = s.fn('_hashtable_new')
        out = []
        seen = {}
        s.nmax = {}
        lo = 0
        hi = 1
        while lo <= MAXBLOCKS:
            n = SYM.sym('blocks', lo, min(hi, MAXBLOCKS))
            for t, v in s.run(f, [n]):
                if isnull(v):
                    s.ob(t, any(x[0] == 'allocfail' for x in t.events()) or t.cs.prove(n.scale(10) - 7 * MAXTABLE), 'C14',
                         'no index for %s blocks although memory was not refused' % (t.cs.interval(n),), f, rule='new')
                    continue
                if not isinstance(v, Ptr) or v.r is None:
                    raise AnalysisError('_hashtable_new returns %r' % (v,))
                size, cnt, mask = (s.getf(t, v.r, s.T, k) for k in ('size', 'count', 'tmask'))
                if not (isinstance(size, L) and t.cs.norm(size).isconst()):
                    raise AnalysisError('table size not determined')
                size = size.c
                s.ob(t, size >= 2 and size & (size - 1) == 0 and t.cs.prove_eq(mask, L(size - 1)), 'C14', 'table size %d is not the '
                     'power of two the probe mask covers' % size, f, rule='new')
                s.ob(t, t.cs.prove(L(size - 1) - n), 'C14', 'a table of %d buckets is made for up to %s blocks: no empty bucket '
                     'would be left' % (size, t.cs.interval(n)[1]), f, rule='new')
                s.ob(t, t.cs.prove_eq(cnt, L(0)), 'C14', 'new table is not empty', f, rule='new')
                ok = t.cs.prove(t.mem[v.r].size - s.kt - 4 * size)
                s.ob(t, ok, ('C14', 'C20'), 'key table smaller than the table size', f, rule='new')
                et = s.getf(t, v.r, s.T, 'etable', True)
                ok = isinstance(et, Ptr) and et.r is not None and t.cs.prove(t.mem[et.r].size - 8 * size)
                s.ob(t, ok, ('C14', 'C20'), 'entry table smaller than the table size', f, rule='new')
                if not ok:
                    continue
                d = s.m.struct_di(s.T)
                bl = s.getf(t, v.r, s.T, 'kbloom', True) if 'kbloom' in d else None
                for r, off in ((v.r, s.kt), (bl.r if isinstance(bl, Ptr) else None, 0)):
                    if r is None:
                        continue
                    g = t.mem[r]
                    z = g.default == 'zero' or any(x[2][0] == 'zero' and t.cs.prove(L(off) - x[0]) and
                                                   t.cs.prove(x[0] + x[1] - g.size) for x in g.segs)
                    s.ob(t, z, 'C14', 'new table has buckets or filter bits that are not cleared', f, rule='new')
                s.nmax[size] = max(s.nmax.get(size, 0), t.cs.interval(n)[1])
                if size in seen:
                    continue
                seen[size] = 1
                out.append((t, v, n))
            lo = hi + 1 if hi else 1
            hi = 2 * hi + 1
        if len(out) < 25:
            raise AnalysisError('only %d table sizes found' % len(out))
        return out

    # ---------------------------------------------------------------- one table size
    def table(s, t0, tp, n, i):
        e = s.e
        size = s.getf(t0, tp.r, s.T, 'size').c
        fa = s.fn('hashtable_add')
        base = t0.copy()
        base.ev = None
        base.env = {}
        if s.nmax[size] < 1:
            return
        cnt = SYM.sym('entries', 0, s.nmax[size] - 1)
        s.setf(base, tp.r, s.T, 'count', cnt)
        et = s.getf(base, tp.r, s.T, 'etable', True)
        d = s.m.struct_di(s.T)
        bl = s.getf(base, tp.r, s.T, 'kbloom', True) if 'kbloom' in d else None
        s.tr, s.er, s.br = tp.r, et.r, bl.r if isinstance(bl, Ptr) else None
        s.size = size
        for r in (s.tr, s.er, s.br):
            if r:
                base.mem[r] = base.mem[r].clone()
                base.mem[r].segs = ()
        for k in ('find_count', 'match_count', 'hashcmp_count', 'entrycmp_count'):
            if k in d:
                s.setf(base, tp.r, s.T, k, SYM.sym(k, 0, 1 << 62))
        # which strong sum lengths: classes of equal entry size; all of them for some table sizes
        classes = [(4 * j - 3, 4 * j) for j in range(1, 9)]
        mine = classes if i < 4 else [classes[i % 8]]
        for wz in (0, 1):
            W = L(0) if wz == 0 else SYM.sym('weak', 1, U32)
            for bit in range(8 if s.br else 1):
                H = s.learn(base, tp, W, bit, fa)
                if H is None:
                    continue
                for lo, hi in mine if bit == 0 else mine[:1]:
                    for magic in KINDS if bit == 0 and i < 2 else (0x72730147,):
                        if lo > KINDS[magic][1]:
                            continue
                        s.find(base, tp, W, bit, H, magic, lo, hi)

    def begin(s, base, W, H, mode, lo=29, hi=32, magic=0x72730147):
        st = base.copy()
        g = st.ghost
        s.W = W
        s.H = H
        s.mode = mode
        s.ssl = SYM.sym('strong_len', lo, min(hi, KINDS[magic][1]))
        s.stride = s.bs + hi
        s.nb = SYM.sym('blocks', 1, s.size - 1)
        s.bsr = s.reg(st, 'heapext', s.nb.scale(s.stride), 'entries', default='lazy')
        s.J = SYM.sym('J', 0, s.size - 1)
        s.EJ = SYM.sym('entry', 0, s.size - 1)
        st.cs.add_ge0(s.nb - 1 - s.EJ)
        g.update(PS=L(0), PI=L(0) if H is None else s.e.emod(st, H, s.size), LAST=L(-1), CUR=L(0), end='0', EI=L(-1), ent='none',
                 hit='0', SA=L(0), went='0', kst='0', est='0', bst='0', probed='1', BO=L(0), BB=L(0), bl='0')
        return st

    def hooks(s, on):
        s.active = on
        s.e.load_hook = s.load if on else None
        s.e.store_hook = s.store if on else None

    def learn(s, base, tp, W, bit, fa):
        """hashtable_add on an arbitrary table with room; returns the hash under which the entry is stored"""
        e = s.e
        H = None
        for phase in ('learn', 'add'):
            st = s.begin(base, W, H, phase)
            if phase == 'add':
                s.cond(st, H, bit)
                if st.cs.dead or not st.cs.feasible():
                    return None
            s.hooks(True)
            try:
                if phase == 'learn':
                    e.mute += 1
                try:
                    outs = s.run(fa, [tp, Ptr(s.bsr, s.EJ.scale(s.stride))], st)
                finally:
                    if phase == 'learn':
                        e.mute -= 1
            finally:
                s.hooks(False)
            if phase == 'learn':
                if not outs:
                    # every path ends in a violation: report it
                    st = s.begin(base, W, H, phase)
                    s.hooks(True)
                    try:
                        outs = s.run(fa, [tp, Ptr(s.bsr, s.EJ.scale(s.stride))], st)
                    finally:
                        s.hooks(False)
                    if not outs and not e.violations:
                        raise AnalysisError('hashtable_add never returns')
                hs = {t.cs.norm(t.ghost['SA']) for t, v in outs if t.ghost['kst'] == '1'}
                z = [t for t, v in outs if t.ghost['kst'] == '1' and not t.cs.prove(t.ghost['SA'] - 1)]
                if not hs or z:
                    for t, v in outs:
                        s.resolve(t, lambda w: s.added(w, v, tp, fa, None, bit, {}))
                    return None
                if len(hs) != 1:
                    raise AnalysisError('hash under which an entry is stored is not determined: %r' % hs)
                H = hs.pop()
                continue
            fw = {}
            for t, v in outs:
                s.resolve(t, lambda w: s.added(w, v, tp, fa, H, bit, fw))
            if s.br and len(set(fw.values())) > 1:
                raise AnalysisError('filter bit of an entry is not determined')
            s.bloom = next(iter(fw.values())) if fw else None
            if s.br and s.bloom is None:
                return None
        return H

    def cond(s, st, H, bit):
        """partition on the position inside a filter byte"""
        if s.br is None:
            return
        e = s.e
        sh = s.getf(st, s.tr, s.T, 'bshift')
        if not sh.isconst():
            raise AnalysisError('filter shift not determined')
        st.cs.add_ge0(H - 1)
        _, r = e.divmod(st, e.shr(st, H, sh.c), 8)
        st.cs.add_eq0(r - bit)

    def added(s, w, v, tp, f, H, bit, fw):
        g = w.ghost
        cs = w.cs
        stored = (g['kst'], g['est'])
        if isnull(v):
            s.ob(w, False, 'C14', 'an entry is refused although the table was made for more', f, rule='add')
            return
        s.ob(w, isinstance(v, Ptr) and v.r == s.bsr, 'C14', 'add does not return the entry', f, rule='add')
        s.ob(w, stored == ('1', '1'), 'C14', 'entry is not put into one bucket exactly once (key stores %s, entry stores %s)' % stored, f,
             rule='add')
        s.ob(w, cs.prove(cs.norm(g['SA']) - 1), 'C14', 'an entry may be stored under hash value zero, which marks an empty bucket', f, rule='add')
        if s.br:
            ok = s.ob(w, g['bst'] == '1', 'C14', 'the filter bit of an added entry is not set', f, rule='bloom')
            if ok:
                fw[id(w)] = (cs.norm(g['BO']).key(), cs.norm(g['BB']).key())
                s.BO, s.BB = cs.norm(g['BO']), cs.norm(g['BB'])
                ok = s.BB.isconst() and s.BB.c in [1 << k for k in range(8)]
                s.ob(w, ok, 'C14', 'the filter byte of an added entry is not extended by one bit', f, rule='bloom')

    # ---------------------------------------------------------------- lookup
    def find(s, base, tp, W, bit, H, magic, lo, hi):
        e = s.e
        f = s.fn('rs_signature_find_match')
        for mode in ('present', 'absent'):
            st = s.begin(base, W, H, mode, lo, hi, magic)
            s.cond(st, H, bit)
            if st.cs.dead or not st.cs.feasible():
                return
            s.bl = SYM.sym('block_len', 1, I31)
            sg = s.reg(st, 'sig', s.m.struct_size('rs_signature'), 'signature', default='lazy', structured=True)
            for k, v in (('magic', L(magic)), ('block_len', s.bl), ('strong_sum_len', s.ssl), ('count', s.nb), ('size', s.nb),
                         ('block_sigs', Ptr(s.bsr, L(0))), ('hashtable', tp)):
                s.setf(st, sg, 'rs_signature', k, v)
            s.sg = sg
            s.kind = KINDS[magic][0]
            s.n = SYM.sym('len', 0, 1 << 40)
            s.data = s.reg(st, 'buf', s.n, 'data looked up', const=True)
            st.mem[s.data].segs = ((L(0), s.n, ('str', 'DATA', L(0))),)
            s.hooks(True)
            try:
                outs = s.run(f, [Ptr(sg, L(0)), W, Ptr(s.data, L(0)), s.n], st)
            finally:
                s.hooks(False)
            if not outs:
                raise AnalysisError('lookup never returns')
            for t, v in outs:
                s.resolve(t, lambda w: s.found(w, v, mode, f))

    def found(s, w, v, mode, f):
        cs = w.cs
        v = s.e.to_s(w, v, 64)
        g = w.ghost
        if cs.prove_eq(v, L(-1)):
            s.ob(w, mode == 'absent', 'C14', 'an indexed block with these sums is not found', f, rule='find')
            return
        ok = g['hit'] == '1'
        s.ob(w, ok, ('C13', 'C14'), 'a match is reported that was not confirmed by comparing strong sums', f, rule='match')
        if ok:
            s.ob(w, cs.prove_eq(v, mul(cs.norm(g['EI']), s.bl)), ('C13', 'C14'), 'position reported (%r) is not block number times '
                 'block length of the block compared' % v, f, rule='match')

    # ---------------------------------------------------------------- memory of the table
    def strong(s, e, st, a, ins, f):
        """rs_calc_strong_sum(kind, buf, len, sum)"""
        k = e.to_u(st, a[0], 32)
        want = s.m.enum('strongsum_kind_t')[s.kind]
        s.ob(st, st.cs.prove_eq(k, L(want)), ('C13', 'C14'), 'strong sum of another kind than the signature\'s', ins=ins, rule='strong')
        n = e.to_u(st, a[2], 64)
        ok = isinstance(a[1], Ptr) and a[1].r == s.data and st.cs.prove_eq(a[1].o, L(0)) and st.cs.prove_eq(n, s.n)
        s.ob(st, ok, ('C13', 'C14'), 'strong sum is not computed over exactly the data looked up', ins=ins, rule='strong')
        p = a[3]
        if e.check_access(st, p, L(32), True, ins):
            e.write_content(st, p.r, p.o, [(L(32), ('str', 'STRONG' if ok else 'OTHER', L(0)))], L(32))
        return [(st, None)]

    def memcmp(s, e, st, a, ins, f):
        g = st.ghost
        n = e.to_u(st, a[2], 64)
        for p in a[:2]:
            e.check_access(st, p, n, False, ins)
            if st.dead:
                return []
        x = [p for p in a[:2] if isinstance(p, Ptr) and p.r == s.bsr]
        y = [p for p in a[:2] if isinstance(p, Ptr) and p.r != s.bsr]
        ok = len(x) == 1 and len(y) == 1
        if ok:
            ok = st.cs.prove_eq(n, s.ssl) and g['ent'] != 'none' and \
                st.cs.prove_eq(x[0].o, st.cs.norm(g['EI']).scale(s.stride) + s.bs)
            s.ob(st, ok, ('C13', 'C14'), 'comparison does not cover the whole strong sum of the entry in the bucket', ins=ins,
                 rule='strong')
            pcs = e.read_content(st, y[0].r, y[0].o, n)
            pos = L(0)
            good = True
            for ln, src in pcs:
                if src[0] != 'str' or src[1] != 'STRONG' or not st.cs.prove_eq(src[2], pos):
                    good = False
                pos = pos + ln
            s.ob(st, good, ('C13', 'C14'), 'entry is compared with something else than the strong sum of the data looked up', ins=ins,
                 rule='strong')
            ok = ok and good
        else:
            s.ob(st, False, ('C13', 'C14'), 'memory comparison that is not between a computed and a stored sum', ins=ins, rule='strong')
        t = st.copy()
        t.ghost['hit'] = '0'
        r = SYM.sym('memcmp', 1, I31)
        u = t.copy()
        st.ghost['hit'] = '1' if ok else '0'
        if g['ent'] == 'J' and s.mode == 'present' and ok:
            return [(st, L(0))]
        return [(st, L(0)), (t, r), (u, L(0) - r)]

    def load(s, st, p, ty, ins):
        g = st.ghost
        cs = st.cs
        e = s.e
        if p.r == s.tr:
            if s.mode == 'new' or cs.prove(L(s.kt - 1) - p.o):
                return None
            x = cs.norm(p.o - s.kt)
            if cs.prove_eq(x, cs.norm(g['LAST']).scale(4)) and cs.prove(g['LAST']):
                return g['CUR']
            if s.mode == 'learn':
                g['LAST'] = e.divmod(st, x, 4)[0]
                g['CUR'] = L(0)
                return L(0)
            if not s.ob(st, cs.prove_eq(x, cs.norm(g['PI']).scale(4)), 'C14', 'bucket looked at (byte %r of the key table) is not the '
                        'next one of the probe sequence (%r)' % (x, cs.norm(g['PI'])), ins=ins, rule='probe'):
                st.dead = True
                return L(0)
            if not s.ob(st, g['end'] == '0', 'C14', 'search goes on past %s' % (
                    'the bucket of the entry looked for' if s.mode == 'present' else 'an empty bucket'), ins=ins, rule='probe'):
                st.dead = True
                return L(0)
            last = e.decide_eq(st, s.J - g['PS'])
            if last:
                v = s.H if s.mode == 'present' else L(0)
                g['end'] = '1'
            else:
                if not cs.prove(s.J - g['PS'] - 1):
                    raise AnalysisError('number of probes not bounded')
                v = SYM.sym('key', 1, U32)
            g['LAST'] = g['PI']
            g['CUR'] = v
            g['PI'] = e.emod(st, cs.norm(g['PI'] + g['PS'] + 1), s.size)
            g['PS'] = cs.norm(g['PS'] + 1)
            g['probed'] = '1'
            return v
        if p.r == s.er:
            ok = cs.prove_eq(p.o, cs.norm(g['LAST']).scale(8))
            s.ob(st, ok, ('C14', 'C13'), 'entry is taken from another bucket than its key', ins=ins, rule='bucket')
            if s.mode != 'present' and g['end'] == '1':
                s.ob(st, False, 'C14', 'entry is taken from an empty bucket', ins=ins, rule='bucket')
                return NULL
            if g['end'] == '1':
                g['EI'] = s.EJ
                g['ent'] = 'J'
            else:
                x = SYM.sym('other', 0, s.size - 1)
                cs.add_ge0(s.nb - 1 - x)
                g['EI'] = x
                g['ent'] = 'x'
            return Ptr(s.bsr, cs.norm(g['EI']).scale(s.stride))
        if p.r == s.br:
            b = SYM.sym('filterbyte', 0, 255)
            if s.mode in ('learn', 'add'):
                g['BO'] = p.o
                g['bl'] = '1'
                return L(0)
            ok = cs.prove_eq(p.o, s.BO)
            if s.mode == 'present':
                s.ob(st, ok, 'C14', 'filter byte looked at is not the one set for these sums', ins=ins, rule='bloom')
                if not ok:
                    return b
                if not s.BB.isconst() or s.BB.c <= 0:
                    return b
                return SYM.sym('hi', 0, 255 // (2 * s.BB.c)).scale(2 * s.BB.c) + s.BB + SYM.sym('lo', 0, s.BB.c - 1) \
                    if s.BB.c > 1 else SYM.sym('hi', 0, 127).scale(2) + 1
            return b
        if p.r == s.bsr and ty.k == 'int' and ty.n == 32:
            if s.mode in ('learn', 'add', 'present'):
                own = s.EJ.scale(s.stride) + s.bw
                if (g['ent'] in ('J',) or s.mode != 'present') and cs.prove_eq(p.o, own):
                    return s.W
            return SYM.sym('entryword', 0, U32)
        return None

    def store(s, st, p, size, v, ins):
        g = st.ghost
        cs = st.cs
        if p.r == s.tr and not cs.prove(L(s.kt - size) - p.o):
            ok = s.mode in ('learn', 'add') and g['kst'] == '0' and size == 4
            v = s.e.to_u(st, v, 32)
            if s.mode == 'add':
                ok = ok and g['end'] == '1' and cs.prove_eq(p.o - s.kt, cs.norm(g['LAST']).scale(4)) and cs.prove_eq(v, s.H)
            s.ob(st, ok, 'C14', 'key stored in a bucket that is not the empty one found, or not the hash of the entry', ins=ins,
                 rule='bucket')
            g['kst'] = '1' if g['kst'] == '0' else '2'
            g['SA'] = cs.norm(s.e.to_u(st, v, 32))
        elif p.r == s.er:
            ok = s.mode in ('learn', 'add') and g['est'] == '0'
            if s.mode == 'add':
                ok = ok and g['end'] == '1' and cs.prove_eq(p.o, cs.norm(g['LAST']).scale(8)) and isinstance(v, Ptr) and v.r == s.bsr
                ok = ok and cs.prove_eq(v.o, s.EJ.scale(s.stride))
            s.ob(st, ok, 'C14', 'entry stored in a bucket that is not the empty one found', ins=ins, rule='bucket')
            g['est'] = '1' if g['est'] == '0' else '2'
        elif p.r == s.br:
            ok = s.mode in ('learn', 'add') and g['bst'] == '0' and g['bl'] == '1' and cs.prove_eq(p.o, g['BO'])
            s.ob(st, ok, 'C14', 'filter bits of other entries may be lost', ins=ins, rule='bloom')
            g['bst'] = '1' if g['bst'] == '0' else '2'
            g['BB'] = cs.norm(s.e.to_u(st, v, 8))

    # ---------------------------------------------------------------- probe loops
    def lkey(s, w):
        segs = []
        for rid in sorted(w.mem, key=repr):
            r = w.mem[rid]
            if r.kind == 'stack' and r.segs:
                segs.append((rid, repr(r.segs)))
        return tuple(segs)

    def lcanon(s, w):
        w.ev = None
        if w.ghost['probed'] == '0':
            s.ob(w, False, 'C14', 'search loop may go on without looking at another bucket', rule='probe')
            s.stuck = True
        w.ghost['probed'] = '0'

    # ---------------------------------------------------------------- building
    def build(s):
        """rs_build_hash_table adds every block of the signature that cannot be found yet"""
        e = s.e
        f = s.fn('rs_build_hash_table')
        S = e.summaries
        names = ('_hashtable_new', 'hashtable_find', 'hashtable_add')
        for k in names:
            s.fn(k)
        S['_hashtable_new'], S['hashtable_find'], S['hashtable_add'] = s.bnew, s.bfind, s.badd
        try:
            for lo, hi in [(4 * j - 3, 4 * j) for j in range(1, 9)]:
                st = State()
                ssl = SYM.sym('strong_len', lo, hi)
                s.nblk = SYM.sym('blocks', 0, MAXBLOCKS)
                s.stride = s.bs + hi
                sg = s.reg(st, 'sig', s.m.struct_size('rs_signature'), 'signature', default='lazy', structured=True)
                s.sg = sg
                s.bsr = s.reg(st, 'heapext', s.nblk.scale(s.stride), 'entries')
                st.mem[s.bsr].segs = ((L(0), s.nblk.scale(s.stride), ('str', 'ENT', L(0))),)
                st.mem[s.bsr].const = True
                for k, v in (('magic', L(0x72730147)), ('block_len', SYM.sym('block_len', 1, I31)), ('strong_sum_len', ssl),
                             ('count', s.nblk), ('size', s.nblk), ('block_sigs', Ptr(s.bsr, L(0))), ('hashtable', NULL)):
                    s.setf(st, sg, 'rs_signature', k, v)
                s.ssl = ssl
                st.ghost.update(I=L(0), pend=L(0))
                n = 0
                for t, v in s.run(f, [Ptr(sg, L(0))], st):
                    n += s.resolve(t, lambda w: s.built(w, v, sg, f))[0][1] or 0
                if not n:
                    raise AnalysisError('rs_build_hash_table never succeeds')
        finally:
            for k in names:
                del S[k]

    def built(s, w, v, sg, f):
        cs = w.cs
        v = s.s32(w, v)
        if any(x[0] == 'notable' for x in w.events()):
            s.ob(w, cs.prove_eq(v, L(RS['RS_MEM_ERROR'])), 'C20', 'refused memory for the index is not reported as such', f, rule='build')
            return 0
        s.ob(w, cs.prove_eq(v, L(RS['RS_DONE'])), 'C14', 'indexing fails although memory was not refused', f, rule='build')
        s.ob(w, cs.prove_eq(w.ghost['I'], s.nblk) and cs.prove(-w.ghost['pend']), 'C14', 'indexing ends before every block was '
             'looked up or added', f, rule='build')
        h = s.getf(w, sg, 'rs_signature', 'hashtable', True)
        s.ob(w, isinstance(h, Ptr) and h.r == 'TABLE', 'C14', 'signature does not hold the index that was built', f, rule='build')
        return 1

    def bnew(s, e, st, a, ins, f):
        n = e.to_s(st, a[0], 32)
        s.ob(st, st.cs.prove(n - s.nblk), 'C14', 'index made for fewer blocks than the signature has', ins=ins, rule='build')
        t = st.copy()
        t.event('notable')
        t.event('allocfail', 'calloc')
        st.mem['TABLE'] = Region('TABLE', 'heap', L(s.m.struct_size(s.T) + 8), 'index', default='lazy', structured=True)
        return [(t, NULL), (st, Ptr('TABLE', L(0)))]

    def isblock(s, st, p):
        return isinstance(p, Ptr) and p.r == s.bsr and st.cs.prove_eq(p.o, st.cs.norm(st.ghost['I']).scale(s.stride))

    def bfind(s, e, st, a, ins, f):
        t, m = a
        if t is not None and isinstance(t, Ptr) and t.r is None:
            e.check_access(st, t, L(4), False, ins)
            return []
        cs = st.cs
        I = cs.norm(st.ghost['I'])
        M = s.m.struct_di('rs_block_match')
        if M is None:
            raise AnalysisError('struct rs_block_match not found')
        s.ob(st, cs.prove(-st.ghost['pend']), 'C14', 'a block that was not found is not added to the index', ins=ins, rule='build')
        ok = isinstance(m, Ptr) and m.r is not None
        if ok:
            r = st.mem[m.r]
            o = M['block_sig'][0]
            w1 = e.load_raw(st, r, L(o + s.bw), 4, INT(32))
            w2 = e.load_raw(st, st.mem[s.bsr], cs.norm(I.scale(s.stride) + s.bw), 4, INT(32))
            ok = isinstance(w1, L) and isinstance(w2, L) and cs.prove_eq(w1, w2)
            pos = I.scale(s.stride) + s.bs
            for ln, src in e.read_content(st, m.r, L(o + s.bs), s.ssl):
                ok = ok and src[0] == 'str' and src[1] == 'ENT' and cs.prove_eq(src[2], pos)
                pos = pos + ln
            sp = e.load_raw(st, r, L(M['signature'][0]), 8, PTR)
            ok = ok and isinstance(sp, Ptr) and sp.r == s.sg
            bp = e.load_raw(st, r, L(M['buf'][0]), 8, PTR)
            ok = ok and (isnull(bp) or (isinstance(bp, L) and bp == 0))
        s.ob(st, ok, 'C14', 'index is searched for something else than the sums of the next block', ins=ins, rule='build')
        z = st.copy()
        z.ghost['pend'] = L(1)
        st.ghost['I'] = st.ghost['I'] + 1
        return [(z, NULL), (st, Ptr(s.bsr, SYM.sym('other', 0, 1 << 34).scale(s.stride)))]

    def badd(s, e, st, a, ins, f):
        if isinstance(a[0], Ptr) and a[0].r is None:
            e.check_access(st, a[0], L(4), False, ins)
            return []
        s.ob(st, s.isblock(st, a[1]), 'C14', 'block added to the index is not the next one of the signature', ins=ins, rule='build')
        st.ghost['I'] = st.ghost['I'] + 1
        st.ghost['pend'] = L(0)
        return [(st, a[1])]

    def ltmpl(s, u):
        pi = u.ghost['PI']
        return [s.J - u.ghost['PS'] + (1 if u.ghost['end'] == '1' else 0), u.cs.norm(pi), L(s.size - 1) - pi]
