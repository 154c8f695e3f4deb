"""File adapters and whole-file operations."""
from engine import *
from units import Unit, RS, I31

BUF = 'rs_buffers_s'


def pieces_ok(e, st, rid, off, n, stream, pos):
    """is [off,off+n) of region rid the bytes stream[pos..pos+n)?  may Fork"""
    if st.cs.prove(-n):
        return True
    for ln, src in e.read_content(st, rid, off, n):
        if src[0] != 'str' or src[1] != stream or not st.cs.prove_eq(src[2], pos):
            return False
        pos = pos + ln
    return True


class Stdio:
    """stream models shared by the units: one input FILE with symbolic content, one output FILE"""

    def install(s, e):
        e.iohook = s.io
        s.FIN = Opaque('FILE in')
        s.FOUT = Opaque('FILE out')

    def stream_start(s, st):
        st.ghost.update(P=SYM.sym('filepos', 0, 1 << 60), eof=L(0), err=L(0), W=L(0), werr=L(0), seek=L(0))

    def io(s, e, st, what, a, r, ins):
        if what == 'fread':
            size, nm = e.to_u(st, a[1], 64), e.to_u(st, a[2], 64)
            n = st.cs.norm(mul(size, nm))
            f = a[3]
            s.ob(st, f is s.FIN, s.tags, 'reads from another file than the input', ins=ins, rule='file')
            if not isinstance(a[0], Ptr) or a[0].r is None:
                return []
            one = st.cs.norm(size) == 1
            out = []
            for k in ('all', 'eof', 'err'):
                t = st.copy()
                if k == 'all':
                    x = n
                    t.cs.add_eq0(r - nm)
                    t.cs.add_ge0(n - 1)
                elif k == 'err' and e.decide_eq(t, t.ghost['eof']) is False:
                    continue
                else:
                    if one:
                        x = r
                        t.cs.add_ge0(nm - 1 - r)
                    else:
                        x = SYM.sym('partial', 0, None)
                        t.cs.add_ge0(n - 1 - x)
                        t.cs.add_ge0(nm - 1 - r)
                    t.ghost[k] = L(1)
                if t.cs.dead or not t.cs.feasible():
                    continue
                p = a[0]
                e.write_content(t, p.r, p.o, [(x, ('str', 'F', t.ghost['P'])), (n - x, ('unk',))], n)
                t.ghost['P'] = t.ghost['P'] + x
                t.event('fread', f, p, n, r, x, k)
                out.append((t, r))
            t = st.copy()      # nothing asked: nothing read, no flag changes
            t.cs.add_eq0(n)
            if not t.cs.dead and t.cs.feasible():
                t.cs.add_eq0(r)
                out.append((t, L(0)))
            return out
        if what == 'fwrite':
            size, nm = e.to_u(st, a[1], 64), e.to_u(st, a[2], 64)
            n = st.cs.norm(mul(size, nm))
            s.ob(st, a[3] is s.FOUT, s.tags, 'writes to another file than the output', ins=ins, rule='file')
            p = a[0]
            if not isinstance(p, Ptr) or p.r is None:
                return []
            out = []
            t = st.copy()
            t.cs.add_eq0(r - nm)
            W = t.ghost['W']
            if not t.cs.dead and t.cs.feasible():
                okp = pieces_ok(e, t, p.r, p.o, n, 'OUT', W)
                s.ob(t, okp, s.tags, 'bytes written to the file are not the next ones the job produced', ins=ins, rule='order')
                t.ghost['W'] = W + n
                t.event('fwrite', a[3], p, n, r)
                out.append((t, r))
            t = st.copy()
            t.cs.add_ge0(nm - 1 - r)
            if not t.cs.dead and t.cs.feasible():
                t.ghost['werr'] = L(1)
                t.ghost['W'] = W + SYM.sym('partial', 0, 1 << 50)
                t.event('fwrite', a[3], p, n, r)
                out.append((t, r))
            return out
        if what in ('feof', 'ferror'):
            k = 'eof' if what == 'feof' else 'err'
            g = st.cs.norm(st.ghost[k])
            st.event(what, a, g)
            return [(st, L(0) if g == 0 else SYM.sym(what, 1, I31))]
        if what in ('fseek', 'fseeko'):
            off = e.to_s(st, a[1], 64)
            wh = st.cs.norm(a[2])
            s.ob(st, a[0] is s.FIN, s.tags, 'seeks another file', ins=ins, rule='file')
            t = st.copy()
            t.ghost['seekerr'] = L(1)
            st.cs.add_eq0(r)
            if wh == 0:
                st.cs.add_ge0(off)
                st.ghost['P'] = off
            elif wh == 1:
                st.ghost['P'] = st.ghost['P'] + off
            else:
                st.ghost['P'] = SYM.sym('filepos', 0, 1 << 60)
            st.ghost['eof'] = L(0)
            out = []
            if not st.cs.dead and st.cs.feasible():
                out.append((st, L(0)))
            out.append((t, L(-1)))
            return out
        return None


class FileSize(Unit):
    """rs_file_size for every kind of file and every failure: the size of a regular file, otherwise unknown"""
    name = 'filesize'
    tags = ('C24',)
    KINDS = {0x8000: 'regular file', 0x1000: 'pipe', 0x2000: 'character device', 0x4000: 'directory', 0x6000: 'block device',
             0xc000: 'socket', 0xa000: 'link'}

    def start(s):
        e = s.e
        e.iohook = s.io
        f = s.fn('rs_file_size')
        s.F = Opaque('FILE in')
        n = 0
        for kind in s.KINDS:
            s.kind = kind
            for t, v in s.run(f, [s.F], State()):
                n += s.resolve(t, lambda w: s.check(w, f, v))[0][1] or 0
        if not n:
            raise AnalysisError('rs_file_size never gives a size')

    def io(s, e, st, what, a, r, ins):
        if what == 'fileno':
            s.ob(st, a[0] is s.F, 'C24', 'descriptor of another file than the one asked about', ins=ins, rule='file')
            st.event('fileno', r)
            return [(st, r)]
        if what not in ('fstat', 'fstat64'):
            return None
        s.ob(st, any(x[0] == 'fileno' and st.cs.prove_eq(x[1], a[0]) for x in st.events()), 'C24', 'size of another file than '
             'the one asked about', ins=ins, rule='file')
        p = a[1]
        t = st.copy()
        for w, ok in ((st, True), (t, False)):
            if isinstance(p, Ptr) and p.r is not None:
                g = w.w(p.r)
                g.cells = {}
                g.segs = ()
                g.default = 'lazy'
        w = st
        sz = SYM.sym('st_size', 0, (1 << 62) - 1)
        d = s.field('stat', 'st_mode'), s.field('stat', 'st_size')
        perm = SYM.sym('permissions', 0, 0xfff)
        e.store(w, Ptr(p.r, p.o + d[0][0]), d[0][1], perm + s.kind, ins)
        e.store(w, Ptr(p.r, p.o + d[1][0]), d[1][1], sz, ins)
        st.event('stat', sz)
        t.event('statfail')
        return [(st, L(0)), (t, L(-1))]

    def check(s, w, f, v):
        v = s.e.to_s(w, v, 64)
        got = [x[1] for x in w.events() if x[0] == 'stat']
        if got and s.kind == 0x8000:
            s.ob(w, w.cs.prove_eq(v, got[-1]), 'C24', 'size of a regular file is not the one the system gives', f, rule='size')
            return 1
        s.ob(w, w.cs.prove_eq(v, L(-1)), 'C24', 'size of %s is not unknown' % (
            'a ' + s.KINDS[s.kind] if got else 'a file whose status cannot be read'), f, rule='size')
        return 0


class FileBuf(Stdio, Unit):
    """rs_infilebuf_fill, rs_outfilebuf_drain and rs_file_copy_cb on arbitrary files, buffer sizes and failures"""
    name = 'filebuf'
    tags = ('C29',)

    def start(s):
        s.install(s.e)
        s.e.tagmap['null'] = ('C20', 'C29')
        s.fill()
        s.drain()
        s.copy()

    def newbuf(s, f):
        """(state, filebuf pointer, region of its memory) as the constructor leaves them"""
        st = State()
        s.stream_start(st)
        n = SYM.sym('buf_len', 1, I31)
        out = []
        for t, v in s.run('rs_filebuf_new', [f, n], st):
            if not isinstance(v, Ptr) or v.r is None:
                continue
            rb = [c[1] for c in t.mem[v.r].cells.values() if isinstance(c[1], Ptr) and c[1].r is not None]
            if len(rb) != 1 or not t.cs.prove_eq(t.mem[rb[0].r].size, n):
                s.ob(t, False, 'C29', 'file buffer has no memory of the announced length', s.fn('rs_filebuf_new'))
                continue
            t.ev = None
            job = s.reg(t, 'job', s.m.struct_size('rs_job'), 'job', default='lazy', structured=True)
            bs = s.reg(t, 'stream', s.m.struct_size(BUF), 'rs_buffers_t', default='lazy', structured=True)
            out.append((t, v, rb[0], n, job, bs))
        if not out:
            raise AnalysisError('rs_filebuf_new never returns a buffer')
        return out

    def stat(s, st, job, nm):
        o = s.field('rs_job', 'stats')[0] + s.field('rs_stats', nm)[0]
        v = s.e.load_raw(st, st.mem[job], L(o), 8, INT(64))
        return st.cs.norm(v)

    def fill(s):
        e = s.e
        f = s.fn('rs_infilebuf_fill')
        for t0, fb, mem, n, job, bs in s.newbuf(s.FIN):
            for case in ('first', 'some', 'eof'):
                st = t0.copy()
                P0 = st.ghost['P']
                if case == 'first':
                    A = L(0)
                    nin = NULL
                else:
                    A = SYM.sym('avail_in', 0, I31)
                    o = SYM.sym('consumed', 0, I31)
                    st.cs.add_ge0(n - o - A)
                    nin = Ptr(mem.r, mem.o + o)
                    st.w(mem.r).segs = ((mem.o + o, A, ('str', 'F', P0 - A)),)
                eof = L(1) if case == 'eof' else L(0)
                if case == 'eof':
                    st.ghost['eof'] = L(1)
                s.setf(st, bs, BUF, 'next_in', nin)
                s.setf(st, bs, BUF, 'avail_in', A)
                s.setf(st, bs, BUF, 'eof_in', eof)
                nout, aout = Ptr(mem.r, L(0)), SYM.sym('avail_out', 0, I31)
                s.setf(st, bs, BUF, 'avail_out', aout)
                T = s.stat(st, job, 'in_bytes')
                st.cs.add_ge0(L(1 << 62) - T)
                # the end-of-file flag may be set already: an earlier short read delivered the last bytes
                starts = [st]
                if case != 'eof':
                    t = st.copy()
                    t.ghost['eof'] = L(1)
                    starts.append(t)
                for u in starts:
                    for t, v in s.run(f, [Ptr(job, L(0)), Ptr(bs, L(0)), fb], u):
                        s.resolve(t, lambda w: s.filled(w, v, f, P0, A, eof, mem, n, job, bs, T, aout, u))

    def filled(s, w, v, f, P0, A, eof, mem, n, job, bs, T, aout, u):
        e = s.e
        cs = w.cs
        v = s.s32(w, v)
        P1 = w.ghost['P']
        err = any(x[0] == 'fread' and x[6] == 'err' and not cs.prove(x[4] - 1) for x in w.events())
        anyerr = any(x[0] == 'fread' and x[6] == 'err' for x in w.events())
        if not e.decide_eq(w, v - RS['RS_DONE']):
            s.ob(w, anyerr, ('C29',), 'refilling from a file fails although the file did not', f, rule='fill')
            s.ob(w, cs.prove_eq(v, L(RS['RS_IO_ERROR'])), 'C18', 'a failing read is not reported as the I/O error', f,
                 rule='read-error')
            return
        if err:
            fr = [x for x in w.events() if x[0] == 'fread' and x[6] == 'err'][0]
            if e.decide_eq(w, fr[4]):
                s.ob(w, False, ('C18', 'C29'), 'a failing read is taken for success or for the end of the file', f,
                     rule='read-error')
                return
        nin = s.getf(w, bs, BUF, 'next_in', True)
        av = s.getf(w, bs, BUF, 'avail_in')
        ef = s.getf(w, bs, BUF, 'eof_in')
        s.ob(w, cs.prove_eq(av, A + P1 - P0), 'C29', 'available input is not the unconsumed bytes plus those read', f,
             rule='fill')
        if not e.decide_eq(w, av):
            ok = isinstance(nin, Ptr) and nin.r == mem.r and cs.prove(nin.o - mem.o) and cs.prove(mem.o + n - nin.o - av)
            s.ob(w, ok, 'C29', 'input cursor outside the file buffer', f, rule='fill')
            if ok:
                s.ob(w, pieces_ok(e, w, nin.r, nin.o, av, 'F', P0 - A), 'C29', 'the bytes handed to the job are not the '
                     'unconsumed ones followed by those read', f, rule='fill')
        s.ob(w, cs.prove_eq(s.stat(w, job, 'in_bytes'), T + P1 - P0), 'C25', 'in_bytes is not the number of bytes read', f,
             rule='in-bytes')
        s.ob(w, cs.prove_eq(s.getf(w, bs, BUF, 'avail_out'), aout), 'C29', 'refilling changes the output side', f, rule='fill')
        if e.decide_eq(w, ef):
            s.ob(w, cs.prove_eq(eof, L(0)), 'C29', 'end of input flag withdrawn', f, rule='fill')
            if cs.prove_eq(A, L(0)):
                s.ob(w, cs.prove(av - 1), ('C29', 'C17'), 'neither input nor the end of input is delivered although no input '
                     'is left', f, rule='fill')
        else:
            s.ob(w, cs.prove_eq(w.ghost['eof'], L(1)), ('C18', 'C29') if anyerr else 'C29', 'end of input flagged '
                 'after a failed read' if anyerr else 'end of input flagged before the end of the file', f, rule='fill')

    def drain(s):
        e = s.e
        f = s.fn('rs_outfilebuf_drain')
        for t0, fb, mem, n, job, bs in s.newbuf(s.FOUT):
            for case in ('first', 'some'):
                st = t0.copy()
                if case == 'first':
                    pr = L(0)
                    s.setf(st, bs, BUF, 'next_out', NULL)
                    s.setf(st, bs, BUF, 'avail_out', L(0))
                else:
                    pr = SYM.sym('produced', 0, I31)
                    st.cs.add_ge0(n - pr)
                    s.setf(st, bs, BUF, 'next_out', Ptr(mem.r, mem.o + pr))
                    s.setf(st, bs, BUF, 'avail_out', n - pr)
                    st.w(mem.r).segs = ((mem.o, pr, ('str', 'OUT', L(0))),)
                ain, ef = SYM.sym('avail_in', 0, I31), SYM.sym('eof_in', 0, 1)
                s.setf(st, bs, BUF, 'avail_in', ain)
                s.setf(st, bs, BUF, 'eof_in', ef)
                T = s.stat(st, job, 'out_bytes')
                st.cs.add_ge0(L(1 << 62) - T)
                for t, v in s.run(f, [Ptr(job, L(0)), Ptr(bs, L(0)), fb], st):
                    s.resolve(t, lambda w: s.drained(w, v, f, pr, mem, n, job, bs, T, ain, ef))

    def drained(s, w, v, f, pr, mem, n, job, bs, T, ain, ef):
        e = s.e
        cs = w.cs
        v = s.s32(w, v)
        failed = cs.norm(w.ghost['werr']) != 0
        if not e.decide_eq(w, v - RS['RS_DONE']):
            s.ob(w, failed, 'C29', 'writing out fails although the file did not', f, rule='drain')
            s.ob(w, cs.prove_eq(v, L(RS['RS_IO_ERROR'])), 'C18', 'a failing write is not reported as the I/O error', f,
                 rule='short-write')
            return
        s.ob(w, not failed, ('C18', 'C29'), 'a short write is taken for success', f, rule='short-write')
        if failed:
            return
        W = w.ghost['W']
        s.ob(w, cs.prove_eq(W, pr), 'C29', 'not exactly the produced bytes are written out', f, rule='drain')
        nout = s.getf(w, bs, BUF, 'next_out', True)
        ok = isinstance(nout, Ptr) and nout.r == mem.r and cs.prove_eq(nout.o, mem.o) and \
            cs.prove_eq(s.getf(w, bs, BUF, 'avail_out'), n)
        s.ob(w, ok, 'C29', 'output cursor is not back at the start of the file buffer after writing it out', f, rule='drain')
        s.ob(w, cs.prove_eq(s.stat(w, job, 'out_bytes'), T + pr), 'C25', 'out_bytes is not the number of bytes written', f,
             rule='out-bytes')
        s.ob(w, cs.prove_eq(s.getf(w, bs, BUF, 'avail_in'), ain) and cs.prove_eq(s.getf(w, bs, BUF, 'eof_in'), ef), 'C29',
             'writing out changes the input side', f, rule='drain')

    def copy(s):
        """the basis callback of the whole-file interface"""
        e = s.e
        f = s.fn('rs_file_copy_cb')
        st = State()
        s.stream_start(st)
        n = SYM.sym('len', 1, 1 << 40)
        pos = SYM.sym('pos', 0, (1 << 62))
        out = s.reg(st, 'buf', n, 'space for basis data')
        lp = s.reg(st, 'buf', 8, 'length', structured=True)
        s.put(st, lp, 0, 8, n)
        bp = s.reg(st, 'buf', 8, 'buffer pointer', structured=True)
        s.put(st, bp, 0, 8, Ptr(out, L(0)))
        for t, v in s.run(f, [s.FIN, pos, Ptr(lp, L(0)), Ptr(bp, L(0))], st):
            s.resolve(t, lambda w: s.copied(w, v, f, pos, n, out, lp, bp))

    def copied(s, w, v, f, pos, n, out, lp, bp):
        e = s.e
        cs = w.cs
        v = s.s32(w, v)
        rd = [x for x in w.events() if x[0] == 'fread']
        se = cs.norm(w.ghost.get('seekerr', L(0))) != 0
        if e.decide_eq(w, v - RS['RS_DONE']):
            s.ob(w, not se, 'C18', 'a failing seek is taken for success', f, rule='seek-error')
            if se:
                return
            ln = cs.norm(s.getf2(w, lp))
            p = w.mem[bp].cells[0][1]
            s.ob(w, cs.prove(ln - 1) and cs.prove(n - ln), ('C18', 'C06'), 'basis callback reports success without data or '
                 'with more than asked', f, rule='copy')
            ok = isinstance(p, Ptr) and p.r in w.mem
            s.ob(w, ok and pieces_ok(e, w, p.r, p.o, ln, 'F', pos), ('C18', 'C29', 'C06'), 'basis callback does not '
                 'deliver the bytes at the position asked', f, rule='copy')
            return
        why = [x[6] for x in rd]
        if se or 'err' in why:
            s.ob(w, cs.prove_eq(v, L(RS['RS_IO_ERROR'])), 'C18', 'a failing seek or read of the basis is not reported as the '
                 'I/O error', f, rule='read-error')
        else:
            s.ob(w, why and why[-1] == 'eof' and cs.prove(-rd[-1][5]), 'C18', 'basis callback fails although the file did not',
                 f, rule='copy')

    def getf2(s, st, rid):
        return s.e.load_raw(st, st.mem[rid], L(0), 8, INT(64))


class Drive(Unit):
    """rs_job_drive as an automaton over arbitrary results of the callbacks and of rs_job_iter"""
    name = 'drive'
    tags = ('C18',)

    def start(s):
        e = s.e
        s.IN, s.OUT = Opaque('in_cb'), Opaque('out_cb')
        s.IA, s.OA = Opaque('in_opaque'), Opaque('out_opaque')
        e.callback = s.cb
        e.summaries['rs_job_iter'] = s.iter
        e.rank_tags = None        # each turn hands control to the caller's callbacks
        ms = e.models['memset']
        f = s.fn('rs_job_drive')
        s.seen = set()
        for incb in (True, False):
            for outcb in (True, False):
                for mode in ('init', 'run'):
                    s.mode = mode
                    s.hasout = outcb
                    st = State()
                    st.ghost.update(ph=L(0), fail=L(0))
                    s.job = s.reg(st, 'job', s.m.struct_size('rs_job'), 'job', default='lazy', structured=True)
                    s.bs = s.reg(st, 'stream', s.m.struct_size(BUF), 'rs_buffers_t', structured=True)

                    def memset(eng, st2, a, ins, g):
                        r = ms(eng, st2, a, ins, g)
                        if s.mode == 'run' and isinstance(a[0], Ptr) and a[0].r == s.bs:
                            s.havoc(st2)
                        return r
                    e.models['memset'] = e.models['llvm.memset'] = memset
                    for nm in ('IN', 'OUT'):
                        c = getattr(s, nm)
                        st.cs.add_eq0(SYM.term(('isnull', id(c)), 'peq', 0, 1))
                    if mode == 'run':
                        s.havoc(st)
                    args = [Ptr(s.job, L(0)), Ptr(s.bs, L(0)), s.IN if incb else NULL, s.IA, s.OUT if outcb else NULL, s.OA]
                    for t, v in s.run(f, args, st):
                        if mode == 'init':
                            continue
                        v = s.s32(t, v)
                        ph = t.cs.norm(t.ghost['ph'])
                        if not ph.isconst():
                            raise AnalysisError('phase lost')
                        if ph == 5:
                            s.ob(t, t.cs.prove_eq(v, t.ghost['fail']), 'C18', 'the result of the failing step is not what '
                                 'is returned', f, rule='drive')
                        elif ph == 4 or (ph == 3 and not outcb):
                            s.ob(t, t.cs.prove_eq(v, L(0)), 'C18', 'a completed job is not reported as done', f, rule='drive')
                        elif ph == 3:
                            s.ob(t, False, 'C18', 'returns without handing the last output over', f, rule='drive')
                        else:
                            s.ob(t, not (e.decide_eq(t, v) if t.cs.prove_eq(v, L(0)) else t.cs.feasible_with([v, -v])),
                                 'C18', 'success is reported although the job is not done', f, rule='drive')
        e.models['memset'] = e.models['llvm.memset'] = ms
        if not {'iter', 'in', 'out'} <= s.seen:
            raise AnalysisError('rs_job_drive does not call the job or a callback')

    def havoc(s, st):
        r = st.w(s.bs)
        r.default = 'lazy'
        r.cells = {}
        r.segs = ()

    def chk0(s, st, ins):
        """buffers are empty at the first call"""
        if s.mode == 'init':
            ok = all(st.cs.prove_eq(s.getf(st, s.bs, BUF, k), L(0)) for k in ('avail_in', 'avail_out', 'eof_in'))
            ok = ok and isnull(s.getf(st, s.bs, BUF, 'next_out', True))
            s.ob(st, ok, ('C29', 'C18'), 'buffers are not empty at the start of an operation', ins=ins, rule='drive')

    def results(s, st, ok):
        out = []
        x = SYM.sym('failure', 1, I31)
        y = SYM.sym('failure', -I31 - 1, -1)
        for r in (x, y):
            t = st.copy()
            t.ghost['ph'] = L(5)
            t.ghost['fail'] = r
            out.append((t, r))
        if s.mode == 'run':
            for ph in ok:
                t = st.copy()
                s.havoc(t)
                t.ghost['ph'] = L(ph[0])
                out.append((t, L(ph[1])))
        return out

    def phase(s, st):
        ph = st.cs.norm(st.ghost['ph'])
        if not ph.isconst():
            return None
        return ph.c

    def cb(s, e, st, callee, args, ins):
        which = 'in' if callee is s.IN else 'out' if callee is s.OUT else None
        if which is None:
            return None
        s.seen.add(which)
        ph = s.phase(st)
        s.chk0(st, ins)
        ok = isinstance(args[0], Ptr) and args[0].r == s.job and isinstance(args[1], Ptr) and args[1].r == s.bs and \
            args[2] is (s.IA if which == 'in' else s.OA)
        s.ob(st, ok, 'C18', 'callback called with other arguments than its own', ins=ins, rule='drive')
        if which == 'in':
            s.ob(st, ph == 0, 'C18', 'input is asked for after a failure or after the job is done', ins=ins, rule='drive')
            return s.results(st, [(0, 0)])
        s.ob(st, ph in (0, 2, 3), 'C18', 'output is handed over after a failure', ins=ins, rule='drive')
        return s.results(st, [(4 if ph == 3 else 0, 0)])

    def iter(s, e, st, args, ins, f):
        s.seen.add('iter')
        ph = s.phase(st)
        s.chk0(st, ins)
        ok = isinstance(args[0], Ptr) and args[0].r == s.job and isinstance(args[1], Ptr) and args[1].r == s.bs
        s.ob(st, ok, 'C18', 'job run with other arguments than its own', ins=ins, rule='drive')
        s.ob(st, ph == 0, 'C18', 'the job is run again after a failure or after it is done', ins=ins, rule='drive')
        out = s.results(st, [(3, 0), (0, RS['RS_BLOCKED'])])
        good = []
        for t, r in out:
            if not r.isconst():
                # the job never returns these as failures
                for k in ('RS_BLOCKED', 'RS_RUNNING'):
                    if t.cs.prove_eq(r, L(RS[k])):
                        t = None
                        break
                if t is None:
                    continue
                for k in ('RS_BLOCKED', 'RS_RUNNING'):
                    pass
            good.append((t, r))
        res = []
        for t, r in good:
            if r.isconst():
                res.append((t, r))
            else:
                for u, k in s.split(t, r, [RS['RS_BLOCKED'], RS['RS_RUNNING']]):
                    if k is None:
                        res.append((u, r))
        return res
