"""Whole-file operations and teardown, with the job loop summarised by its contract (unit Drive)."""
from engine import *
from units import Unit, RS, I31
from units_file import Stdio, BUF

MAGICS = (0x72730136, 0x72730137, 0x72730146, 0x72730147)
BIG = 1 << 34        # no whole-file buffer needs more


class Whole(Stdio, Unit):
    name = 'whole'
    tags = ('C19',)

    def start(s):
        e = s.e
        e.tagmap['null'] = ('C20',)
        e.default_tags = ('C19',)
        e.on_exit = s.exit
        e.iohook = s.io2
        s.FIN, s.FOUT, s.FBAS = Opaque('FILE in'), Opaque('FILE out'), Opaque('FILE basis')
        e.summaries['rs_job_drive'] = s.drive
        if 'rs_file_size' in s.m.funcs:
            e.summaries['rs_file_size'] = s.fsize      # its contract is decided by unit FileSize
        s.fn('rs_sig_args')
        e.summaries['rs_sig_args'] = s.args      # its contract is decided by unit Args
        s.driven = 0
        s.sig()
        s.loadsig()
        s.delta()
        s.patch()
        s.freesig()
        s.jobfree()

    # ---- environment
    def fsize(s, e, st, a, ins, f):
        r = SYM.sym('file size', -1, (1 << 62) - 1)
        st.event('filesize', a[0], r)
        return [(st, r)]

    def args(s, e, st, a, ins, f):
        fs = e.to_s(st, a[0], 64)
        sizes = [x for x in st.events() if x[0] == 'filesize' and st.cs.prove_eq(x[2], fs)]
        s.ob(st, st.cs.prove_eq(fs, L(-1)) or any(x[1] is s.FIN for x in sizes), 'C24', 'defaults are taken for something else '
             'than the size of the basis file', ins=ins, rule='file-size')
        t = st.copy()
        out = [(t, SYM.sym('param_error', 1, I31))]
        for p, w, lo, hi in ((a[1], 4, 0x72730136, 0x72730147), (a[2], 8, 1, I31), (a[3], 8, 1, 32)):
            if not isinstance(p, Ptr) or p.r is None:
                raise AnalysisError('rs_sig_args called with unknown pointers')
            e.store(st, p, w, SYM.sym('arg', lo, hi), ins)
        return out + [(st, L(0))]

    def exit(s, e, st, name, a, ins):
        refused = any(x[0] == 'allocfail' for x in st.events())
        s.ob(st, refused and name == 'abort', ('C22',), 'process terminated (%s) without memory having been refused' % name,
             ins=ins, rule='terminate')

    def io2(s, e, st, what, a, r, ins):
        if what == 'fread':
            st.event('R', a[3])
            return [(st, r)]
        if what == 'fwrite':
            st.event('W', a[3])
            t = st.copy()
            t.cs.add_eq0(r - e.to_u(t, a[2], 64))
            st.cs.add_ge0(e.to_u(st, a[2], 64) - 1 - r)
            return [x for x in ((t, r), (st, r)) if not x[0].cs.dead and x[0].cs.feasible()]
        return None

    # ---- the job loop
    def drive(s, e, st, a, ins, f):
        s.driven += 1
        job, bs, incb, ia, outcb, oa = a
        if not (isinstance(job, Ptr) and job.r in st.mem and isinstance(bs, Ptr) and bs.r in st.mem):
            s.ob(st, False, ('C18', 'C19'), 'job loop run on something else than a job and buffers', ins=ins)
            return []
        s.ob(st, not st.mem[job.r].freed, 'C19', 'job used after being freed', ins=ins, rule='use-after-free')
        res = []
        e.set_mem(st, bs, L(0), L(s.m.struct_size(BUF)), ins)
        # which files do the callbacks work on
        for cb, op, want, ev, role in ((incb, ia, s.want_in, 'R', 'input'), (outcb, oa, s.want_out, 'W', 'output')):
            if want is None:
                continue
            ok = isinstance(cb, Fn)
            s.ob(st, ok, 'C29', 'no %s callback' % role, ins=ins, rule='roles')
            if not ok:
                continue
            t = st.copy()
            t.ev = None
            n = SYM.sym('produced', 1, I31)
            hit = None
            e.mute += 1
            try:
                ts = e.call(t, s.m.funcs[cb.name], [job, bs, op], ins)
                if ev == 'W':
                    ts2 = []
                    for u, v in ts:
                        no = s.getf(u, bs.r, BUF, 'next_out', True)
                        if not isinstance(no, Ptr) or no.r is None:
                            continue
                        ao = s.getf(u, bs.r, BUF, 'avail_out')
                        u.cs.add_ge0(ao - n)
                        s.setf(u, bs.r, BUF, 'next_out', Ptr(no.r, no.o + n))
                        s.setf(u, bs.r, BUF, 'avail_out', ao - n)
                        ts2 += e.call(u, s.m.funcs[cb.name], [job, bs, op], ins)
                    ts = ts2
            finally:
                e.mute -= 1
            fs = set()
            for u, v in ts:
                for x in u.events():
                    if x[0] == ev:
                        fs.add(x[1])
            s.ob(st, fs == {want}, ('C29', 'C18'), 'the %s callback does not work on the %s file' % (role, role), ins=ins,
                 rule='roles')
        # the job does anything: scoop allocated or not, statistics arbitrary
        for scoop in (0, 1):
            t = st.copy()
            if scoop:
                sc = s.reg(t, 'heap', SYM.sym('scoop_alloc', 1, 1 << 40), 'input buffer of the job')
                s.setf(t, job.r, 'rs_job', 'scoop_buf', Ptr(sc, L(0)))
                s.setf(t, job.r, 'rs_job', 'scoop_next', Ptr(sc, L(0)))
                s.setf(t, job.r, 'rs_job', 'scoop_alloc', t.mem[sc].size)
                av = SYM.sym('scoop_avail', 0, 1 << 40)
                t.cs.add_ge0(t.mem[sc].size - av)
                s.setf(t, job.r, 'rs_job', 'scoop_avail', av)
            so = s.field('rs_job', 'stats')[0]
            e.mute += 1
            for nm, (o, sz, _) in s.m.struct_di('rs_stats').items():
                v = SYM.sym('stat_' + nm, 0, (1 << (8 * sz)) - 1) if nm != 'op' else Opaque('op')
                t.ghost['st_' + nm] = v
                s.put(t, job.r, so + o, sz, v)
            e.mute -= 1
            t.ghost['driven'] = L(1)
            r = SYM.sym('result', -I31 - 1, I31)
            t.ghost['res'] = r
            res.append((t, r))
        return res

    def op(s, fname, args, st, want_in, want_out, stats, keep=()):
        """one whole-file operation for all results of its job"""
        e = s.e
        s.want_in, s.want_out = want_in, want_out
        f = s.fn(fname)
        base = {k for k in st.mem}
        n = 0
        outs = s.run(f, args, st)
        for t, v in outs:
            v = s.s32(t, v)
            dr = 'driven' in t.ghost
            if dr:
                n += 1
                s.ob(t, t.cs.prove_eq(v, s.s32(t, t.ghost['res'])), 'C18', 'the operation does not return the result of its '
                     'job', f, rule='result')
                if stats is not None:
                    ok = all(s.same_field(t, stats, nm, t.ghost['st_' + nm]) for nm in s.m.struct_di('rs_stats')
                             if nm != 'op')
                    s.ob(t, ok, 'C25', 'the statistics handed out are not those of the job', f, rule='stats')
            else:
                s.ob(t, not e.decide_eq(t, v) if t.cs.prove_eq(v, L(0)) else not t.cs.feasible_with([v, -v]), 'C18',
                     'the operation reports success without having run its job', f, rule='result')
            s.leaks(t, f, base, keep)
            for ev in t.events():
                if ev[0] == 'alloc':
                    z = t.mem[ev[1]].size
                    s.ob(t, t.cs.prove(L(BIG) - z), 'C22', 'size of a buffer is not bounded by the parameters: %r' % z, f,
                         rule='alloc-size')
        if not n:
            raise AnalysisError('%s never runs a job' % fname)
        return outs

    def same_field(s, t, rid, nm, want):
        o, sz, _ = s.field('rs_stats', nm)
        v = s.e.load_raw(t, t.mem[rid], L(o), sz, INT(8 * sz))
        return isinstance(v, L) and t.cs.prove_eq(v, want)

    def leaks(s, t, f, base, keep=()):
        live = set()
        for k in keep:
            live |= s.reach(t, k)
        for rid, r in t.mem.items():
            if rid in base or r.parent is not None or r.kind not in ('heap', 'heapext'):
                continue
            if rid in live:
                s.ob(t, not r.freed, 'C19', 'object handed to the caller has been freed (%s)' % r.name, f, rule='freed')
            else:
                s.ob(t, r.freed, 'C19', 'object is not freed: %s' % r.name, f, rule='leak')

    def reach(s, t, rid):
        seen = set()
        todo = [rid]
        while todo:
            x = todo.pop()
            if x in seen or x not in t.mem:
                continue
            seen.add(x)
            for so, (sz, sid) in t.mem[x].subs.items():
                todo.append(sid)
            for c in t.mem[x].cells.values():
                if isinstance(c[1], Ptr) and c[1].r is not None:
                    todo.append(c[1].r)
        return seen

    # ---- operations
    def globals0(s, st):
        """the application-set buffer sizes are not negative"""
        for o in (s.FIN, s.FOUT, s.FBAS):
            st.cs.add_eq0(SYM.term(('isnull', id(o)), 'peq', 0, 1))
        for g in ('rs_inbuflen', 'rs_outbuflen'):
            if g not in s.m.globals:
                raise AnalysisError('global %s not found' % g)
            rid = s.e.region_of_global(st, g)
            if isinstance(rid, Ptr):
                rid = rid.r
            st.w(rid).cells[0] = (4, SYM.sym(g, 0, I31))

    def stats(s, st):
        r = s.reg(st, 'stats', s.m.struct_size('rs_stats'), "caller's statistics", structured=True)
        return r

    def variants(s):
        for w in (0, 1):
            st = State()
            s.globals0(st)
            sr = s.stats(st) if w else None
            yield st, sr, (Ptr(sr, L(0)) if w else NULL)

    def sig(s):
        for st, sr, sp in s.variants():
            bl, sl = SYM.sym('block_len', 0, (1 << 64) - 1), SYM.sym('strong_len', 0, (1 << 64) - 1)
            mg = SYM.sym('magic', 0, (1 << 32) - 1)
            s.op('rs_sig_file', [s.FIN, s.FOUT, bl, sl, mg, sp], st, s.FIN, s.FOUT, sr)

    def loadsig(s):
        for st, sr, sp in s.variants():
            pp = s.reg(st, 'buf', 8, 'signature pointer', structured=True)
            s.op('rs_loadsig_file', [s.FIN, Ptr(pp, L(0)), sp], st, s.FIN, None, sr, keep=(pp,))

    def mksig(s, st, heap=False):
        e = s.e
        r = s.reg(st, 'heap' if heap else 'sig', s.m.struct_size('rs_signature'), 'signature', default='lazy', structured=True)
        s.setf(st, r, 'rs_signature', 'block_len', SYM.sym('sig_block_len', 1, I31))
        s.setf(st, r, 'rs_signature', 'count', SYM.sym('sig_count', 0, I31))
        s.setf(st, r, 'rs_signature', 'strong_sum_len', SYM.sym('sig_strong', 1, 32))
        return r

    def delta(s):
        for st, sr, sp in s.variants():
            for mg in MAGICS:
                t = st.copy()
                r = s.mksig(t)
                s.setf(t, r, 'rs_signature', 'magic', L(mg))
                hs = s.reg(t, 'sig', s.m.struct_size('hashtable'), 'index', default='lazy', structured=True)
                s.setf(t, r, 'rs_signature', 'hashtable', Ptr(hs, L(0)))
                for u, v in s.op('rs_delta_file', [Ptr(r, L(0)), s.FIN, s.FOUT, sp], t, s.FIN, s.FOUT, sr):
                    s.ob(u, not u.mem[r].freed and not u.mem[hs].freed, 'C19', "the caller's signature is freed",
                         s.fn('rs_delta_file'), rule='freed')

    def patch(s):
        s.basis()
        for st, sr, sp in s.variants():
            s.op('rs_patch_file', [s.FBAS, s.FIN, s.FOUT, sp], st, s.FIN, s.FOUT, sr)

    def basis(s):
        """the patch job reads the basis file through its callback"""
        e = s.e
        keep = s.drive

        def drive(eng, st, a, ins, f):
            job = a[0]
            cb = s.getf(st, job.r, 'rs_job', 'copy_cb', True)
            arg = s.getf(st, job.r, 'rs_job', 'copy_arg', True)
            s.ob(st, isinstance(cb, Fn) and arg is s.FBAS, ('C18', 'C06'), 'the basis callback does not get the basis file',
                 ins=ins, rule='roles')
            if isinstance(cb, Fn):
                o = s.reg(st, 'buf', SYM.sym('n', 1, 1 << 20), 'space')
                n = s.reg(st, 'buf', 8, 'length', structured=True)
                p = s.reg(st, 'buf', 8, 'pointer', structured=True)
                s.put(st, n, 0, 8, st.mem[o].size)
                s.put(st, p, 0, 8, Ptr(o, L(0)))
                fs = set()
                for u, v in e.call(st.copy(), s.m.funcs[cb.name], [arg, SYM.sym('pos', 0, 1 << 60), Ptr(n, L(0)),
                                                                   Ptr(p, L(0))], ins):
                    fs |= {x[1] for x in u.events() if x[0] == 'R'}
                s.ob(st, fs == {s.FBAS}, ('C18', 'C06'), 'the basis callback does not read the basis file', ins=ins,
                     rule='roles')
            return []
        e.summaries['rs_job_drive'] = drive
        for st, sr, sp in s.variants():
            s.run('rs_patch_file', [s.FBAS, s.FIN, s.FOUT, sp], st)
        e.summaries['rs_job_drive'] = keep

    def freesig(s):
        """rs_free_sumset on every shape a signature can have"""
        f = s.fn('rs_free_sumset')
        for sums in (0, 1):
            st = State()
            r = s.mksig(st, True)
            s.setf(st, r, 'rs_signature', 'block_sigs', NULL)
            if not sums:
                s.setf(st, r, 'rs_signature', 'size', L(0))
                s.setf(st, r, 'rs_signature', 'count', L(0))
            if sums:
                s.setf(st, r, 'rs_signature', 'size', SYM.sym('sig_size', 1, I31))
                b = s.reg(st, 'heap', SYM.sym('sums', 0, 1 << 40), 'block sums')
                s.setf(st, r, 'rs_signature', 'block_sigs', Ptr(b, L(0)))
            starts = []
            t = st.copy()
            s.setf(t, r, 'rs_signature', 'hashtable', NULL)
            starts.append(t)
            for t, v in s.newtable(st):
                s.setf(t, r, 'rs_signature', 'hashtable', v)
                starts.append(t)
            for t in starts:
                for u, _ in s.run(f, [Ptr(r, L(0))], t):
                    s.leaks(u, f, ())

    def newtable(s, st):
        """what the index constructor returns: all of the index or nothing"""
        h = s.fn('_hashtable_new')
        out = []
        before = set(st.mem)
        for t, v in s.run(h, [SYM.sym('blocks', 0, 1 << 29)], st.copy()):
            fail = any(x[0] == 'allocfail' for x in t.events())
            if isnull(v):
                s.ob(t, fail, 'C20', 'no index although memory was available', h, rule='alloc')
                s.leaks(t, h, before)
                continue
            s.ob(t, not fail, 'C20', 'refused memory is ignored', h, rule='alloc')
            if not isinstance(v, Ptr):
                raise AnalysisError('_hashtable_new returns no pointer')
            s.leaks(t, h, before, (v.r,))
            t.ev = None
            out.append((t, v))
        if not out:
            raise AnalysisError('_hashtable_new never returns an index')
        return out

    def jobfree(s):
        """each kind of job begun, run into any state and freed"""
        f = s.fn('rs_job_free')
        for kind in ('sig', 'loadsig', 'delta', 'patch'):
            st = State()
            keep = ()
            base = set()
            if kind == 'sig':
                r = s.run('rs_sig_begin', [SYM.sym('b', 1, I31), SYM.sym('l', 1, 32), L(MAGICS[3])], st)
            elif kind == 'patch':
                r = s.run('rs_patch_begin', [Opaque('copy callback'), Opaque('arg')], st)
            elif kind == 'loadsig':
                pp = s.reg(st, 'buf', 8, 'signature pointer', structured=True)
                keep = (pp,)
                r = s.run('rs_loadsig_begin', [Ptr(pp, L(0))], st)
            else:
                sg = s.mksig(st)
                s.setf(st, sg, 'rs_signature', 'magic', L(MAGICS[3]))
                hs = s.reg(st, 'sig', s.m.struct_size('hashtable'), 'index', default='lazy', structured=True)
                s.setf(st, sg, 'rs_signature', 'hashtable', Ptr(hs, L(0)))
                r = s.run('rs_delta_begin', [Ptr(sg, L(0))], st)
            for t, j in r:
                if not isinstance(j, Ptr) or j.r is None:
                    s.ob(t, any(x[0] == 'allocfail' for x in t.events()), 'C20', 'no job', f)
                    continue
                for scoop in (0, 1):
                    u = t.copy()
                    if scoop:
                        sc = s.reg(u, 'heap', SYM.sym('scoop_alloc', 1, 1 << 40), 'input buffer of the job')
                        s.setf(u, j.r, 'rs_job', 'scoop_buf', Ptr(sc, L(0)))
                        s.setf(u, j.r, 'rs_job', 'scoop_next', Ptr(sc, SYM.sym('o', 0, 1 << 40)))
                        s.setf(u, j.r, 'rs_job', 'scoop_alloc', u.mem[sc].size)
                        s.setf(u, j.r, 'rs_job', 'scoop_avail', SYM.sym('scoop_avail', 0, 1 << 40))
                    for w, _ in s.run(f, [j], u):
                        s.leaks(w, f, (), keep)
                        if kind == 'delta':
                            s.ob(w, not w.mem[sg].freed and not w.mem[hs].freed, 'C19', "the caller's signature is freed "
                                 'with the job', f, rule='freed')
