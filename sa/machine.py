"""Job-level analysis: abstract execution of the streaming state machines.

A job is analysed one step (one call of its current state function) at a time, under an
arbitrary caller-supplied stream satisfying the documented stream contract.  The result of
a step is related to a logical input stream L and a logical output; specification classes
(spec_*.py) say what the step must have done."""
from engine import *
from absdom import *

RS = {}


def load_results(mod):
    RS.clear()
    for k, v in mod.enum('rs_result').items():
        RS[k] = v


class IO:
    """symbols of one step's stream"""
    pass


class Machine:
    tags_io = ('C01',)
    tags_in = ('C02',)
    tags_tube = ('C03',)
    name = 'job'
    maxn = 1 << 40
    both_scoop = False

    def __init__(s, eng):
        s.e = eng
        s.m = eng.m
        load_results(s.m)
        s.F = s.m.struct_di('rs_job')
        s.B = s.m.struct_di('rs_buffers_s')
        for need in ('stream', 'statefn', 'scoop_buf', 'scoop_next', 'scoop_alloc', 'scoop_avail', 'write_buf',
                     'write_len', 'copy_len'):
            if need not in s.F:
                raise AnalysisError('struct rs_job has no field ' + need)
        s.nodes = {}
        s.noprog = {}
        s.steps = 0
        s.outcomes = {}
        s.iofields = {s.F[x][0] for x in ('stream', 'scoop_buf', 'scoop_next', 'scoop_alloc', 'scoop_avail')}
        s.wb = s.F['write_buf']
        s.ignore = set(s.iofields)
        eng.tagmap.update({'in': s.tags_io, 'out': s.tags_io, 'scoop': s.tags_in + ('C20',), 'constwrite': s.tags_io,
                           'job': s.tags_tube, 'stack': s.tags_io, 'heap': s.tags_in + ('C20',), 'null': s.tags_io,
                           'freed': s.tags_in + ('C19',), 'overlap': s.tags_in,
                           'badfree': s.tags_in + ('C19',), 'global': s.tags_io,
                           'stream': s.tags_io})

    # ------------------------------------------------------------ field access
    def fld(s, st, rid, off, size=8, ty=None):
        r = st.mem[rid]
        return s.e.load_raw(st, r, L(off), size, ty or INT(8 * size))

    def jget(s, st, name, ptr=False):
        o, sz, _ = s.F[name]
        v = s.e.load_raw(st, st.mem[s.job], L(o), sz, PTR if ptr else INT(8 * sz))
        if isinstance(v, L) and not ptr:
            return st.cs.norm(v)
        return v

    def jset(s, st, name, v):
        o, sz, _ = s.F[name]
        st.w(s.job).cells[o] = (sz, v)

    # ------------------------------------------------------------ start state
    def begin(s, fn, args, st=None):
        """run the rs_*_begin function abstractly; returns list of states with s.job set"""
        st = st or State()
        st.ghost['P'] = L(0)
        f = s.m.fn(fn)
        out = []
        for t, v in s.e.call(st, f, args):
            if isinstance(v, Ptr) and v.r is not None:
                s.remap(t, {v.r: 'JOB'})
                v = Ptr('JOB', v.o)
                s.job = v.r
                t.w(v.r).info = s.F
                t.w(v.r).kind = 'job'
                t.w(v.r).name = 'job'
                sub = s.e.subregion(t, v.r, s.wb[0], s.wb[1])
                t.w(sub).kind = 'job'
                out.append(t)
        if not out:
            raise AnalysisError(fn + ' never returns a job')
        return out

    # ------------------------------------------------------------ one step's stream
    def fresh_io(s, st, case=1):
        e = s.e
        io = IO()
        # forget the previous step's regions
        for rid in list(st.mem):
            if st.mem[rid].kind in ('in', 'out', 'scoop', 'stream'):
                del st.mem[rid]
        io.ain = SYM.sym('avail_in', 0, s.maxn)
        io.aout = SYM.sym('avail_out', 0, s.maxn)
        io.eof = SYM.sym('eof_in', 0, 1)
        io.P = st.ghost['P']
        if case == 0:
            io.alloc = L(0)
            io.so = L(0)
            io.sav = L(0)
        else:
            io.alloc = SYM.sym('scoop_alloc', 0, 2 * s.maxn)
            io.so = SYM.sym('scoop_off', 0, 2 * s.maxn)
            io.sav = SYM.sym('scoop_avail', 0, 2 * s.maxn)
            st.cs.add_ge0(io.alloc - io.so - io.sav)
        io.inr = e.new_region(st, 'in', io.ain, "caller's input buffer", const=True)
        st.mem[io.inr].segs = ((L(0), io.ain, ('str', 'L', io.P + io.sav)),)
        io.outr = e.new_region(st, 'out', io.aout, "caller's output buffer")
        io.sr = e.new_region(st, 'stream', s.m.struct_size('rs_buffers_s'), 'rs_buffers_t', structured=True,
                             default='lazy')
        st.mem[io.sr].info = s.B
        r = st.mem[io.sr]

        def put(nm, v):
            o, sz, _ = s.B[nm]
            r.cells[o] = (sz, v)
        put('next_in', Ptr(io.inr, L(0)))
        put('avail_in', io.ain)
        put('eof_in', io.eof)
        put('next_out', Ptr(io.outr, L(0)))
        put('avail_out', io.aout)
        s.jset(st, 'stream', Ptr(io.sr, L(0)))
        if case == 0:
            s.jset(st, 'scoop_buf', NULL)
            s.jset(st, 'scoop_next', NULL)
        else:
            io.scr = e.new_region(st, 'scoop', io.alloc, 'scoop buffer')
            q = st.mem[io.scr]
            q.segs = ((io.so, io.sav, ('str', 'L', io.P)),)
            s.jset(st, 'scoop_buf', Ptr(io.scr, L(0)))
            s.jset(st, 'scoop_next', Ptr(io.scr, io.so))
        s.jset(st, 'scoop_alloc', io.alloc)
        s.jset(st, 'scoop_avail', io.sav)
        s.cur = io
        return io

    def sget(s, st, io, nm):
        o, sz, _ = s.B[nm]
        c = st.mem[io.sr].cells.get(o)
        if c is None:
            raise AnalysisError('stream field %s lost' % nm)
        return c[1]

    # ------------------------------------------------------------ end-of-step relation
    def after(s, st, io, fn):
        """check the stream/scoop/tube representation after a step; returns record or None"""
        e = s.e
        cs = st.cs
        rec = IO()
        ok = True
        nin, ain = s.sget(st, io, 'next_in'), s.sget(st, io, 'avail_in')
        nout, aout = s.sget(st, io, 'next_out'), s.sget(st, io, 'avail_out')
        eof = s.sget(st, io, 'eof_in')
        ok &= e.oblige(st, isinstance(nin, Ptr) and nin.r == io.inr and isinstance(ain, L) and
                       cs.prove_eq(nin.o + ain, io.ain) and cs.prove(ain) and cs.prove(nin.o), s.tags_io,
                       'input cursor and count disagree after a step', fn=fn, rule='cursor')
        ok &= e.oblige(st, isinstance(nout, Ptr) and nout.r == io.outr and isinstance(aout, L) and
                       cs.prove_eq(nout.o + aout, io.aout) and cs.prove(aout) and cs.prove(nout.o), s.tags_io,
                       'output cursor and count disagree after a step', fn=fn, rule='cursor')
        ok &= e.oblige(st, isinstance(eof, L) and cs.prove_eq(eof, io.eof), s.tags_io,
                       'end-of-input flag of the caller changed', fn=fn, rule='cursor')
        if not ok:
            return None
        rec.cin = io.ain - ain
        rec.out = nout.o
        rec.ain = ain
        rec.aout = aout
        sb, sn = s.jget(st, 'scoop_buf', True), s.jget(st, 'scoop_next', True)
        sal, sav = s.jget(st, 'scoop_alloc'), s.jget(st, 'scoop_avail')
        rec.sav = sav
        rec.P = cs.norm(io.P + io.sav + rec.cin - sav)
        good = True
        if isnull(sb):
            good = cs.prove(-sav) and cs.prove(-sal)
        else:
            good = isinstance(sb, Ptr) and isinstance(sn, Ptr) and sb.r == sn.r and sb.r in st.mem and \
                not st.mem[sb.r].freed and cs.prove_eq(sb.o, L(0)) and cs.prove(sn.o) and cs.prove(sal - sn.o - sav) \
                and cs.prove(sav) and cs.prove(st.mem[sb.r].size - sal)
        e.oblige(st, good, s.tags_in, 'internal input buffer representation broken (buf=%r next=%r alloc=%r avail=%r)'
                 % (sb, sn, sal, sav), fn=fn, rule='scoop-rep')
        if not good:
            return None
        if not isnull(sb) and not cs.prove(-sav):
            pcs = e.read_content(st, sb.r, sn.o, sav)
            same = len(pcs) >= 1 and all(p[1][0] == 'str' and p[1][1] == 'L' for p in pcs)
            if same:
                pos = rec.P
                for ln, src in pcs:
                    if not cs.prove_eq(src[2], pos):
                        same = False
                    pos = pos + ln
            e.oblige(st, same, s.tags_in, 'buffered input is not the continuation of the logical input: %r at %r' % (
                pcs, rec.P), fn=fn, rule='scoop-content')
        e.oblige(st, cs.prove(rec.P - io.P), s.tags_in, 'logical input position moved backwards', fn=fn,
                 rule='scoop-content')
        s.noleak(st, fn)
        # tube
        wl, cl = s.jget(st, 'write_len'), s.jget(st, 'copy_len')
        rec.wl, rec.n = wl, cl
        good = cs.prove(wl) and cs.prove(L(s.wb[1]) - wl)
        e.oblige(st, good, s.tags_tube, 'output queue length outside its buffer: %r' % wl, fn=fn, rule='tube-rep')
        if not good:
            return None
        e.oblige(st, cs.prove(cl), s.tags_tube, 'negative pass-through length', fn=fn, rule='tube-rep')
        # logical output of the step
        pieces = []
        if not cs.prove(-rec.out):
            pieces += e.read_content(st, io.outr, L(0), rec.out)
        if not cs.prove(-wl):
            pieces += e.read_content(st, (s.job, s.wb[0]), L(0), wl)
        rec.tube = [] if cs.prove(-cl) else [(cl, ('str', 'L', rec.P))]
        rec.pieces = s.merge(st, pieces + rec.tube)
        rec.eof = io.eof
        rec.io = io
        return rec

    def noleak(s, st, fn):
        """every live heap object is still reachable from the job or the caller's objects"""
        seen = set()
        todo = [r for r, q in st.mem.items() if q.kind not in ('heap', 'heapext', 'scoop', 'in', 'out', 'stack', 'cbbuf') and
                q.parent is None]
        while todo:
            x = todo.pop()
            if x in seen or x not in st.mem:
                continue
            seen.add(x)
            q = st.mem[x]
            todo += [sid for sz, sid in q.subs.values()]
            todo += [c[1].r for c in q.cells.values() if isinstance(c[1], Ptr) and c[1].r is not None]
            todo += [g[2][2].r for g in q.segs if g[2][0] == 'val' and isinstance(g[2][2], Ptr) and g[2][2].r is not None]
        for r, q in st.mem.items():
            if q.kind == 'scoop' and st.cs.prove(-q.size):
                continue        # stands for the NULL pointer of a job that has buffered nothing yet
            if q.kind in ('heap', 'heapext', 'scoop') and q.parent is None and not q.freed:
                s.e.oblige(st, r in seen, ('C19',), 'object is neither freed nor owned by the job any more: %s' % q.name, fn=fn,
                           rule='leak')

    def merge(s, st, pieces):
        cs = st.cs
        out = []
        for ln, src in pieces:
            if cs.prove(-ln):
                continue
            if out:
                l0, s0 = out[-1]
                if s0[0] == src[0] and s0[0] in ('str', 'snap') and s0[1] == src[1] and \
                        cs.prove_eq(s0[2] + l0, src[2]):
                    out[-1] = (l0 + ln, s0)
                    continue
            out.append((ln, src))
        return out

    def bytes_of(s, st, pieces):
        """flatten pieces: list of byte terms (L) and ('data', stream, off, len) items"""
        cs = st.cs
        out = []
        for ln, src in pieces:
            n = cs.norm(ln)
            if src[0] == 'snap' and n.isconst() and cs.norm(src[2]).isconst():
                snap = SNAPS[src[1]]
                o = cs.norm(src[2]).c
                end = o + n.c
                while o < end:
                    c = snap.get(o)
                    if c is None or c[0] != 1 or not isinstance(c[1], L):
                        return None
                    out.append(s.e.to_u(st, c[1], 8))
                    o += 1
            elif src[0] == 'str':
                out.append(('data', src[1], src[2], n))
            elif src[0] == 'val' and src[1] == 1 and isinstance(src[2], L):
                out.append(s.e.to_u(st, src[2], 8))
            else:
                out.append(('unk', src, n))
        return out

    # ------------------------------------------------------------ stepping
    def step(s, st, fnname):
        """run one state function; yields (st, result(L), io)"""
        res = []
        f = s.m.funcs[fnname]
        cases = (0, 1) if s.both_scoop else (1,)
        for case in cases:
            t = st.copy()
            io = s.fresh_io(t, case)
            s.jset(t, 'write_len', L(0))
            s.jset(t, 'copy_len', L(0))
            t.w((s.job, s.wb[0])).cells = {}
            t.w((s.job, s.wb[0])).segs = ()
            t.w((s.job, s.wb[0])).default = 'undef'
            t.ev = None
            t.trail = None
            for u, v in s.e.call(t, f, [Ptr(s.job, L(0))]):
                res += s.finish(st, u, v, io, f)
        s.steps += 1
        return res

    def finish(s, g, st, v, io, f):
        """classify the result, check the representation and the specification, partitioning
        the state where the specification needs a case distinction"""
        out = []
        work = [st]
        e = s.e
        n = 0
        while work:
            u = work.pop()
            n += 1
            if n > 3000:
                raise AnalysisError('case explosion after %s' % f.src)
            save = (len(e.violations), set(e.vkeys), dict(e.bt), None, dict(s.outc_cur),
                    {k: dict(x) for k, x in s.noprog_cur.items()})
            try:
                w = u.copy()
                v2 = e.to_s(w, v, 32) if isinstance(v, L) else v
                kind = s.classify(w, v2)
                if any(x[0] == 'allocfail' for x in w.events()):
                    e.oblige(w, kind not in ('RS_RUNNING', 'RS_BLOCKED', 'RS_DONE'), ('C20',), 'memory was refused, but the job '
                             'neither stops nor reports it', fn=f, rule='refused')
                rec = s.after(w, io, f)
                if w.cs.dead or w.dead or not w.cs.feasible():
                    continue
                out += s.outcome(g, w, kind, v2, rec, f.name)
            except Fork as fk:
                del e.violations[save[0]:]
                e.vkeys = save[1]
                e.bt = save[2]
                s.outc_cur, s.noprog_cur = save[4], save[5]
                work += e.fork(u, fk, None)
        return out

    def classify(s, st, v):
        if not isinstance(v, L):
            raise AnalysisError('state function returns a non-integer')
        v = st.cs.norm(v)
        if v.isconst():
            for k, n in RS.items():
                if n == v.c:
                    return k
            return 'other'
        for k in ('RS_DONE', 'RS_BLOCKED', 'RS_RUNNING'):
            if s.e.decide_eq(st, v - RS[k]):
                return k
        return 'error'

    # ------------------------------------------------------------ exploration
    def explore(s, starts):
        """least fixpoint over (state function, specification mode, shape)"""
        G = s.G = {}
        s.finals = {}
        work = []
        e = s.e
        e.mute = 0
        base = list(e.violations)
        byk = {}

        def arrive(K, u):
            s.rename(u)
            K = K + (hash(shape(u)),)
            if K not in G:
                G[K] = AState(K, u, s.templates(u))
                work.append(K)
            elif G[K].absorb(u, G[K].visits > 0):
                if K not in work:
                    work.append(K)
        for st in starts:
            sf = s.jget(st, 'statefn', True)
            if not isinstance(sf, Fn):
                raise AnalysisError('initial state function unknown')
            s.canon(st)
            arrive((sf.name, st.ghost.get('mode')), st)
        n = 0
        while work:
            K = work.pop(0)
            A = G[K]
            A.visits += 1
            n += 1
            if A.visits > 25 or n > 8000 or len(G) > 3000:
                raise AnalysisError('no fixpoint for %s job at %s' % (s.name, K[0]))
            e.violations = []
            e.vkeys = set()
            s.noprog_cur = {}
            s.outc_cur = {}
            bt0 = e.bt
            e.bt = {}
            if s.verbose:
                print('  visit', K[:2], A.visits, len(A.locs), len(A.rel), 'work', len(work), flush=True)
            succ = s.step(A.instantiate(), K[0])
            byk[K] = (e.violations, e.bt, s.noprog_cur, s.outc_cur)
            e.bt = bt0
            for K2, u in succ:
                arrive(K2, u)
        seen = set()
        e.violations = base
        for K, (vs, bt, np, oc) in byk.items():
            for tg, (o, p) in bt.items():
                x = e.bt.get(tg, (0, 0))
                e.bt[tg] = (x[0] + o, x[1] + p)
            for a2, d in np.items():
                s.noprog.setdefault(a2, {}).update(d)
            for k2, c in oc.items():
                s.outcomes[k2] = s.outcomes.get(k2, 0) + c
            for v in vs:
                k = (tuple(v['tags']), v['msg'], v['function'], v['line'])
                if k not in seen:
                    seen.add(k)
                    v['state'] = '%s / %s' % (s.m.funcs[K[0]].src, K[1])
                    e.violations.append(v)
            s.nodes[s.m.funcs[K[0]].src] = s.nodes.get(s.m.funcs[K[0]].src, 0) + 1
        s.check_progress()
        s.teardown()

    teardowns = 0
    verbose = False

    def rename(s, st):
        """canonical names for heap regions reachable from the job"""
        roots = [s.job]
        seen = {s.job: s.job}
        todo = [s.job] + list(s.extra_roots)
        for r in s.extra_roots:
            seen[r] = r
        while todo:
            x = todo.pop(0)
            r = st.mem[x]
            subs = [(None, x)] + [(so, sid) for so, (sz, sid) in sorted(r.subs.items())]
            for so, sid in subs:
                if sid not in st.mem:
                    continue
                for o in sorted(st.mem[sid].cells):
                    v = st.mem[sid].cells[o][1]
                    if isinstance(v, Ptr) and v.r is not None and v.r in st.mem and v.r not in seen and \
                            st.mem[v.r].kind == 'heap' and st.mem[v.r].parent is None:
                        nn = 'H:%s.%s' % (seen[x], o)
                        seen[v.r] = nn
                        todo.append(v.r)
        s.remap(st, {a: b for a, b in seen.items() if a != b})

    def remap(s, st, ren):
        if not ren:
            return
        full = dict(ren)
        for rid in list(st.mem):
            if isinstance(rid, tuple) and rid[0] in ren:
                full[rid] = (ren[rid[0]], rid[1])
        newmem = {}
        for rid, r in st.mem.items():
            q = r.clone()
            q.id = full.get(rid, rid)
            if q.parent is not None:
                q.parent = full.get(q.parent, q.parent)
            q.subs = {so: (sz, full.get(sid, sid)) for so, (sz, sid) in q.subs.items()}
            q.cells = {o: (c[0], Ptr(full.get(c[1].r, c[1].r), c[1].o)) if isinstance(c[1], Ptr) else c
                       for o, c in q.cells.items()}
            newmem[q.id] = q
        st.mem = newmem
        st.own = set(newmem)
        for k, v in list(st.ghost.items()):
            if isinstance(v, Ptr) and v.r in full:
                st.ghost[k] = Ptr(full[v.r], v.o)

    extra_roots = ()

    def templates(s, st):
        return ()

    def canon(s, st):
        """put a between-steps state in canonical form"""
        z = L(0)
        for nm in ('scoop_buf', 'scoop_next', 'stream'):
            s.jset(st, nm, NULL)
        for nm in ('scoop_alloc', 'scoop_avail', 'write_len', 'copy_len'):
            s.jset(st, nm, z)
        w = st.w((s.job, s.wb[0]))
        w.cells = {}
        w.segs = ()
        w.default = 'undef'
        for rid in list(st.mem):
            r = st.mem[rid]
            if r.kind in ('in', 'out', 'scoop', 'stream', 'stack', 'cbbuf') or (r.freed and rid != s.job) or \
                    (r.kind == 'heap' and r.name.startswith('malloc@') and not s.reachable(st, rid)):
                del st.mem[rid]
                st.own.discard(rid)
        st.env = {}
        st.stack = []
        st.ev = None
        s.canon_extra(st)

    def canon_extra(s, st):
        pass

    def reachable(s, st, rid):
        """is rid referenced from any live region's cells"""
        for q, r in st.mem.items():
            if q == rid or r.kind in ('in', 'out', 'stack', 'stream'):
                continue
            for o, c in r.cells.items():
                if isinstance(c[1], Ptr) and c[1].r == rid:
                    return True
        return False

    def outcome(s, g, t, kind, v, rec, name):
        f = s.m.funcs[name]
        if rec is None:
            return []
        key = (f.src, kind)
        if not s.e.mute:
            s.outc_cur[key] = s.outc_cur.get(key, 0) + 1
        e = s.e
        cs = t.cs
        if kind == 'RS_BLOCKED':
            # the caller must be able to unblock: end of input not flagged, or no output space left
            ok = cs.prove(-rec.eof) or cs.prove(-rec.aout)
            if not ok:
                # neither decided: both flagged EOF and space left possible
                ok = not cs.feasible_with([rec.eof - 1, rec.aout - 1])
            e.oblige(t, ok, ('C16',), 'asks to wait although input has ended and output space remains', fn=f,
                     rule='blocked')
            ok = not cs.feasible_with([rec.ain - 1, rec.aout - 1, -rec.cin, -rec.out])
            e.oblige(t, ok, ('C16',), 'asks to wait without having used any of the offered input and output space', fn=f,
                     rule='blocked')
        if kind in ('RS_RUNNING', 'RS_BLOCKED'):
            if not s.spec_step(g, t, kind, rec, f):
                return []
            sf = s.jget(t, 'statefn', True)
            if not isinstance(sf, Fn):
                e.oblige(t, False, ('C17',), 'job left without a state function while not finished', fn=f,
                         rule='machine')
                return []
            if kind == 'RS_RUNNING' and not e.mute:
                prog = cs.prove(rec.P - rec.io.P + rec.out + rec.wl + rec.n - 1)
                if not prog and not t.ghost.get('_noprogok'):
                    s.noprog_cur.setdefault(name, {})[sf.name] = t.trail_list()
            t.ghost.pop('_noprogok', None)
            s.canon(t)
            return [((sf.name, t.ghost.get('mode')), t)]
        s.spec_final(g, t, kind, v, rec, f)
        s.finals.setdefault((f.src, kind, str(t.ghost.get('mode')).split(':')[0], hash(shape(t))), t)
        return []

    def callers(s, st):
        """objects which belong to the caller and must survive the job"""
        return ()

    def teardown(s):
        """freeing the job in any state it can be in releases all it owns and nothing of the caller's"""
        e = s.e
        f = s.m.fn('rs_job_free')
        todo = [(k[0] + ':' + str(k[1]), A.instantiate()) for k, A in s.G.items()]
        for k, t in s.finals.items():
            todo.append(('%s -> %s' % k[:2], t.copy()))
            t = t.copy()
            s.jset(t, 'statefn', NULL)      # as the driver leaves a completed job
            todo.append(('%s -> %s, completed' % k[:2], t))
        if 'final_result' in s.F:
            for where, t in todo:
                s.jset(t, 'final_result', SYM.sym('final_result', 0, 200))
        for where, st in todo:
            if not any(st.mem[r].kind == 'scoop' for r in st.mem):
                s.fresh_io(st)
            st.ev = None
            st.trail = None
            st.w(s.job).kind = 'heap'
            keep = set(s.callers(st))
            for t, v in e.call(st, f, [Ptr(s.job, L(0))]):
                q = t.mem[s.job]
                e.oblige(t, q.freed, ('C19',), 'rs_job_free does not free the job (%s)' % where, fn=f, rule='leak')
                seen = set()
                work = list(keep)
                while work:
                    x = work.pop()
                    if x in seen or x not in t.mem:
                        continue
                    seen.add(x)
                    r = t.mem[x]
                    e.oblige(t, not r.freed, ('C19',), "freeing the job frees the caller's %s (%s)" % (r.name, where), fn=f,
                             rule='freed')
                    work += [c[1].r for c in r.cells.values() if isinstance(c[1], Ptr) and c[1].r is not None]
                for rid, r in t.mem.items():
                    if rid in seen or r.parent is not None or r.kind not in ('heap', 'heapext', 'scoop') or r.freed:
                        continue
                    if r.kind == 'scoop' and t.cs.prove(-r.size):
                        continue
                    e.oblige(t, False, ('C19',), 'freeing the job leaks %s (%s)' % (r.name, where), fn=f, rule='leak')
                s.teardowns += 1

    def check_progress(s):
        # edges without provable progress must not form a cycle
        color = {}

        def dfs(n, path):
            color[n] = 1
            for m in s.noprog.get(n, {}):
                if color.get(m) == 1:
                    f = s.m.funcs[n]
                    s.e.oblige(None, False, ('C17',), 'state cycle without progress: %s' % ' -> '.join(
                        s.m.funcs[x].src for x in path + [n, m]), fn=f, rule='progress')
                elif m not in color:
                    dfs(m, path + [n])
            color[n] = 2
        for n in list(s.noprog):
            if n not in color:
                dfs(n, [])
        s.e.oblige(None, True, ('C17',), '')

    # ------------------------------------------------------------ bytes of the current header or command
    def hb(s, st, i):
        """i-th byte of the current command (or stream header)"""
        v = st.ghost.get('h%d' % i)
        if v is not None:
            return v
        return s.e.byte(st, 'L', s.cur.P - st.ghost['c'] + i)

    def be(s, st, i, n):
        v = L(0)
        for k in range(n):
            v = v.scale(256) + s.hb(st, i + k)
        return v

    def keep_bytes(s, st, c):
        """remember the command bytes consumed so far as numbers"""
        c = st.cs.norm(c)
        if not c.isconst():
            for k in range(0, 18):
                if s.e.decide_eq(st, c - k):
                    c = L(k)
                    break
        if not c.isconst() or not 0 <= c.c <= 17:
            return None
        for i in range(c.c):
            if 'h%d' % i not in st.ghost:
                st.ghost['h%d' % i] = s.hb(st, i)
        return c.c

    def drop_bytes(s, st):
        for k in [k for k in st.ghost if k[0] == 'h' and k[1:].isdigit()]:
            del st.ghost[k]

    def curpos(s, st, io):
        ain = s.sget(st, io, 'avail_in')
        return io.P + io.sav + io.ain - ain - s.jget(st, 'scoop_avail')

    # specification hooks
    def spec_step(s, g, t, kind, rec, f):
        return True

    def spec_final(s, g, t, kind, v, rec, f):
        pass

