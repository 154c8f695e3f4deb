"""Abstract models of the C library functions librsync uses."""
from lin import *


def install(E):
    import engine as G
    M = E.models

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def alloc(eng, st, size, name, zero, ins, tag='heap', maynull=True):
        out = []
        if maynull:
            z = st.copy()
            z.note('%s:%d %s fails' % (ins.fn.src if ins else '?', ins.line if ins else 0, name))
            z.event('allocfail', name)
            out.append((z, G.NULL))
        size = st.cs.norm(size)
        rid = eng.new_region(st, 'heap', size, '%s@%s:%s' % (name, ins.fn.src if ins else '?', ins.line if ins else 0),
                             default='zero' if zero else 'undef', structured=True)
        st.cs.add_ge0(L(G.MAXOBJ) - size)
        st.event('alloc', rid)
        out.append((st, G.Ptr(rid, L(0))))
        return out
    E.alloc = alloc

    @reg('malloc')
    def malloc(eng, st, a, ins, f):
        return alloc(eng, st, eng.to_u(st, a[0], 64), 'malloc', False, ins)

    @reg('calloc')
    def calloc(eng, st, a, ins, f):
        n, z = eng.to_u(st, a[0], 64), eng.to_u(st, a[1], 64)
        # calloc itself fails when the product does not fit
        return alloc(eng, st, mul(st.cs.norm(n), st.cs.norm(z)), 'calloc', True, ins)

    def free1(eng, st, p, ins, how='free'):
        if isinstance(p, G.Ptr):
            if p.r is None:
                return
            r = st.mem[p.r]
            eng.oblige(st, not r.freed, eng.tags_for('freed'), '%s of already freed object %s' % (how, r.name), ins,
                       rule='double-free')
            eng.oblige(st, r.kind in ('heap', 'heapext', 'scoop') and r.parent is None and st.cs.prove_eq(p.o, L(0)),
                       eng.tags_for('badfree'), '%s of %s which is not the start of an owned heap object' % (how, r.name),
                       ins, rule='bad-free')
            w = st.w(p.r)
            w.freed = True
            st.event('free', p.r)
        elif isinstance(p, G.Opaque):
            st.event('freeopaque', p.k)

    @reg('free')
    def free(eng, st, a, ins, f):
        free1(eng, st, a[0], ins)
        return [(st, None)]

    @reg('realloc')
    def realloc(eng, st, a, ins, f):
        p = a[0]
        n = eng.to_u(st, a[1], 64)
        pieces = []
        cp = None
        if isinstance(p, G.Ptr) and p.r is not None:
            old = st.mem[p.r]
            if old.size is not None:
                if eng.decide(st, n - old.size):
                    cp = old.size
                else:
                    cp = n
                if not old.cells:
                    pieces = eng.read_content(st, p.r, L(0), cp)
        out = alloc(eng, st, n, 'realloc', False, ins)
        st2, q = out[-1]
        if isinstance(p, G.Ptr) and p.r is not None:
            old = st2.mem[p.r]
            if pieces:
                eng.write_content(st2, q.r, L(0), pieces, cp)
            else:
                st2.w(q.r).cells = {o: c for o, c in old.cells.items()
                                    if cp is not None and st2.cs.prove(cp - o - c[0])}
                st2.w(q.r).segs = tuple(g for g in old.segs if cp is not None and st2.cs.prove(cp - g[0] - g[1]))
            free1(eng, st2, p, ins, 'realloc')
            st2.event('realloc', p.r, q.r, n)
        return out

    @reg('memcpy', 'llvm.memcpy')
    def memcpy(eng, st, a, ins, f):
        eng.copy_mem(st, a[0], a[1], a[2], ins)
        return [(st, a[0])]

    @reg('memmove', 'llvm.memmove')
    def memmove(eng, st, a, ins, f):
        eng.copy_mem(st, a[0], a[1], a[2], ins, move=True)
        return [(st, a[0])]

    @reg('memset', 'llvm.memset')
    def memset(eng, st, a, ins, f):
        b = st.cs.norm(a[1]) if isinstance(a[1], L) else a[1]
        eng.set_mem(st, a[0], b, a[2], ins)
        return [(st, a[0])]

    @reg('memcmp')
    def memcmp(eng, st, a, ins, f):
        n = eng.to_u(st, a[2], 64)
        eng.check_access(st, a[0], n, False, ins)
        if not st.dead:
            eng.check_access(st, a[1], n, False, ins)
        if st.dead:
            return []
        r = SYM.sym('memcmp', -(1 << 31), (1 << 31) - 1)
        st.event('memcmp', a[0], a[1], n, r, ins)
        return [(st, r)]

    # ---- stdio
    @reg('fread')
    def fread(eng, st, a, ins, f):
        n = mul(eng.to_u(st, a[1], 64), eng.to_u(st, a[2], 64))
        n = st.cs.norm(n)
        if not eng.check_access(st, a[0], n, True, ins) and st.dead:
            return []
        r = SYM.sym('fread', 0, None)
        st.cs.add_ge0(eng.to_u(st, a[2], 64) - r)
        if eng.iohook:
            x = eng.iohook(eng, st, 'fread', a, r, ins)
            if x is not None:
                return x
        if isinstance(a[0], G.Ptr) and a[0].r is not None:
            eng.write_content(st, a[0].r, a[0].o, [(n, ('unk',))], n)
        st.event('fread', a[3], a[0], n, r)
        return [(st, r)]

    @reg('fwrite')
    def fwrite(eng, st, a, ins, f):
        n = st.cs.norm(mul(eng.to_u(st, a[1], 64), eng.to_u(st, a[2], 64)))
        if not eng.check_access(st, a[0], n, False, ins) and st.dead:
            return []
        r = SYM.sym('fwrite', 0, None)
        st.cs.add_ge0(eng.to_u(st, a[2], 64) - r)
        if eng.iohook:
            x = eng.iohook(eng, st, 'fwrite', a, r, ins)
            if x is not None:
                return x
        st.event('fwrite', a[3], a[0], n, r)
        return [(st, r)]

    def simple(name, lo, hi):
        def g(eng, st, a, ins, f):
            r = SYM.sym(name, lo, hi)
            if eng.iohook:
                x = eng.iohook(eng, st, name, a, r, ins)
                if x is not None:
                    return x
            st.event(name, a, r)
            return [(st, r)]
        M[name] = g

    I = (1 << 31) - 1
    for nm in ('fseeko', 'fseek', 'fflush', 'fclose', 'feof', 'ferror', 'fputs', 'fprintf', 'printf', 'fileno',
               'puts', 'fputc', 'putchar', 'vfprintf', 'vprintf', 'atoi'):
        simple(nm, -I - 1, I)
    M['fputc'] = M['fputc']

    @reg('fopen')
    def fopen(eng, st, a, ins, f):
        z = st.copy()
        h = G.Opaque('FILE')
        if eng.iohook:
            x = eng.iohook(eng, st, 'fopen', a, h, ins)
            if x is not None:
                return x
        z.event('fopen', a, None)
        st.event('fopen', a, h)
        return [(z, G.NULL), (st, h)]

    @reg('fstat', 'stat', 'access')
    def fstat(eng, st, a, ins, f):
        r = SYM.sym(f.name, -1, 0)
        p = a[1]
        if eng.iohook:
            x = eng.iohook(eng, st, f.name, a, r, ins)
            if x is not None:
                return x
        if isinstance(p, G.Ptr) and p.r is not None:
            w = st.w(p.r)
            w.cells = {}
            w.segs = ()
            w.default = 'lazy'
        st.event(f.name, a, r)
        return [(st, r)]

    @reg('snprintf', 'vsnprintf')
    def snprintf(eng, st, a, ins, f):
        n = eng.to_u(st, a[1], 64)
        if not eng.check_access(st, a[0], n, True, ins) and st.dead:
            return []
        if isinstance(a[0], G.Ptr) and a[0].r is not None:
            eng.write_content(st, a[0].r, a[0].o, [(n, ('unk',))], n)
        r = SYM.sym('snprintf', 0, I)      # 0 <= result (no encoding errors in the C locale)
        st.event('snprintf', a[0], n, r)
        return [(st, r)]

    @reg('strcmp', 'strncmp')
    def strcmp(eng, st, a, ins, f):
        return [(st, SYM.sym('strcmp', -I - 1, I))]

    @reg('strlen')
    def strlen(eng, st, a, ins, f):
        return [(st, SYM.sym('strlen', 0, G.MAXOBJ))]

    @reg('strchr', 'strerror', 'poptGetOptArg', 'poptGetArg', 'poptBadOption', 'poptStrerror', 'poptGetContext',
         'strrchr', 'getenv')
    def opq(eng, st, a, ins, f):
        return [(st, G.Opaque(f.name))]

    @reg('__errno_location')
    def errno(eng, st, a, ins, f):
        if 'errno' not in st.mem:
            r = G.Region('errno', 'errno', L(4), 'errno', default='lazy')
            st.mem['errno'] = r
        return [(st, G.Ptr('errno', L(0)))]

    @reg('time')
    def time(eng, st, a, ins, f):
        return [(st, SYM.sym('time', 0, 1 << 40))]

    @reg('exit', 'abort', '_exit', '__assert_fail')
    def exit_(eng, st, a, ins, f):
        if eng.on_exit:
            eng.on_exit(eng, st, f.name, a, ins)
        return []

    @reg('llvm.va_start', 'llvm.va_end', 'llvm.dbg', 'llvm.lifetime', 'llvm.experimental', 'llvm.stackrestore',
         'llvm.assume')
    def nop(eng, st, a, ins, f):
        return [(st, None)]

    @reg('llvm.stacksave')
    def ss(eng, st, a, ins, f):
        return [(st, G.Opaque('sp'))]

    def minmax(kind):
        def g(eng, st, a, ins, f):
            w = f.ret.n
            cv = eng.to_u if kind[0] == 'u' else eng.to_s
            x, y = cv(st, a[0], w), cv(st, a[1], w)
            big = eng.decide(st, x - y)
            if kind[1:] == 'max':
                return [(st, x if big else y)]
            return [(st, y if big else x)]
        M['llvm.' + kind] = g
    for k in ('umax', 'umin', 'smax', 'smin'):
        minmax(k)

    def bswap(eng, st, a, ins, f):
        w = f.ret.n
        x = eng.to_u(st, a[0], w)
        e = L(0)
        for k in range(w // 8):
            q = eng.shr(st, x, 8 * k)
            b = eng.emod(st, q, 256)
            e = e + b.scale(1 << (w - 8 - 8 * k))
        return [(st, e)]
    M['llvm.bswap'] = bswap

    def fsh(left):
        def g(eng, st, a, ins, f):
            w = f.ret.n
            c = st.cs.norm(a[2])
            if not c.isconst():
                return [(st, SYM.sym('fsh', 0, (1 << w) - 1))]
            k = c.c % w
            if not left:
                k = (w - k) % w
            if k == 0:
                return [(st, a[0] if left else a[1])]
            hi = a[0].scale(1 << k)
            lo = eng.divmod(st, eng.to_u(st, a[1], w), 1 << (w - k))[0]
            return [(st, eng.ibin(st, 'or', hi, lo, w))]
        return g
    M['llvm.fshl'] = fsh(True)
    M['llvm.fshr'] = fsh(False)

    def log0(eng, st, a, ins, f):
        lv = st.cs.norm(a[0]) if isinstance(a[0], L) else None
        st.event('log', lv.c if lv is not None and lv.isconst() else None, ins.line if ins else 0)
        return [(st, None)]
    E.summaries['rs_log0'] = log0
    E.summaries['rs_log0_nofn'] = log0
    E.iohook = None
    E.on_exit = None
