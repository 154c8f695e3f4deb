"""The job driver: rs_job_iter with the output queue and an arbitrary state function.

The current state function is an environment automaton: it may consume any part of the offered input, keep any amount
buffered, write any amount directly, queue any bytes and any pass-through, and return any result; what is known of it is
what the job analyses prove of every real state function.  Everything else - the queue, the loop, completion - is the
code of librsync.  The driver's loop is cut at the call: the state after a call of the state function is arbitrary, so
the segment between two calls is analysed once, provided nothing live in the driver differs between the two calls."""
from machine import *

I31 = (1 << 31) - 1


class JobIter(Machine):
    name = 'job driver'
    cuts = 5

    def start(s):
        e = s.e
        s.STATE = Opaque('state function')
        e.callback = s.cb
        s.called = set()
        # the driver's loop ends at the cut: no invariant is needed
        e.unroll_max, e.unroll_forks, e.unroll_width = 12, 12, 1 << 20
        s.f = f = s.m.fn('rs_job_iter')
        if f is None:
            raise AnalysisError('function rs_job_iter not found')
        s.G = {}
        s.pyst = []
        body = e.call_body

        def call_body(st, f, args, ins=None):
            s.pyst.append((f, ins))
            try:
                return body(st, f, args, ins)
            finally:
                s.pyst.pop()
        e.call_body = call_body
        s.uses = {}
        for mode in ('run', 'done'):
            for case in (0, 1):
                s.one(f, mode, case)
        if 'run' not in s.called:
            raise AnalysisError('rs_job_iter does not call the state function')

    # ------------------------------------------------------------ one call of rs_job_iter
    def one(s, f, mode, case):
        e = s.e
        st = State()
        st.cs.add_eq0(SYM.term(('isnull', id(s.STATE)), 'peq', 0, 1))
        jr = Region('JOB', 'job', L(s.m.struct_size('rs_job')), 'job', default='lazy', structured=True)
        jr.info = s.F
        st.mem['JOB'] = jr
        s.job = 'JOB'
        sub = e.subregion(st, s.job, s.wb[0], s.wb[1])
        st.w(sub).kind = 'job'
        st.ghost['P'] = SYM.sym('P', 0, s.maxn)
        io = s.fresh_io(st, case)
        s.queue(st)
        s.jset(st, 'statefn', s.STATE if mode == 'run' else NULL)
        st.ghost.update(o=L(0), mode=mode, last='', k=L(0), err=L(0), cin=L(0))
        s.seen = []
        s.base = st.cs.copy()
        s.mode0 = mode
        n = 0
        for t, v in e.call(st, f, [Ptr(s.job, L(0)), Ptr(io.sr, L(0))]):
            n += 1
            s.resolve(t, lambda w: s.exit(w, v, io, f))
        s.steps += 1
        if not n:
            raise AnalysisError('rs_job_iter never returns')
        s.nodes['%s scoop=%d' % (mode, case)] = n

    def resolve(s, t, go):
        work = [t]
        n = 0
        while work:
            u = work.pop()
            n += 1
            if n > 2000:
                raise AnalysisError('case explosion')
            save = (len(s.e.violations), set(s.e.vkeys), dict(s.e.bt))
            w = u.copy()
            try:
                go(w)
            except Fork as fk:
                del s.e.violations[save[0]:]
                s.e.vkeys = save[1]
                s.e.bt = save[2]
                work += s.e.fork(u, fk, None)

    def queue(s, st):
        """an arbitrary queue: bytes T[0..TW), then TC bytes of input"""
        g = st.ghost
        tw = SYM.sym('queued', 0, s.wb[1])
        tc = SYM.sym('passthrough', 0, s.maxn)
        s.jset(st, 'write_len', tw)
        s.jset(st, 'copy_len', tc)
        w = st.w((s.job, s.wb[0]))
        w.cells = {}
        w.segs = ((L(0), tw, ('str', 'T', L(0))),)
        w.default = 'undef'
        g.update(TW=tw, TC=tc, TP=g['P'])

    # ------------------------------------------------------------ what has been delivered of the queue
    def deliver(s, st, io, rec, fn, where):
        e = s.e
        cs = st.cs
        g = st.ghost
        o = g['o']
        pieces = []
        if not e.oblige(st, cs.prove(rec.out - o), ('C01', 'C03'), 'output cursor moved back', fn=fn, rule='cursor'):
            return
        if not cs.prove(o - rec.out):
            pieces += e.read_content(st, io.outr, o, rec.out - o)
        if not cs.prove(-rec.wl):
            pieces += e.read_content(st, (s.job, s.wb[0]), L(0), rec.wl)
        if not cs.prove(-rec.n):
            pieces.append((rec.n, ('str', 'L', rec.P)))
        pos = L(0)
        tot = g['TW'] + g['TC']
        ok = True
        for ln, src in pieces:
            if e.decide_eq(st, ln):
                continue
            if src[0] == 'str' and src[1] == 'T':
                ok = ok and cs.prove_eq(src[2], pos) and cs.prove(g['TW'] - pos - ln)
            elif src[0] == 'str' and src[1] == 'L':
                ok = ok and cs.prove(pos - g['TW']) and cs.prove_eq(src[2], g['TP'] + pos - g['TW'])
            else:
                ok = False
            pos = pos + ln
        ok = ok and cs.prove_eq(pos, tot)
        e.oblige(st, ok, ('C03', 'C02'), 'queued output is not delivered whole and in order %s: %r of (%r queued, then %r of input at %r)' % (
            where, pieces, g['TW'], g['TC'], g['TP']), fn=fn, rule='queue')
        e.oblige(st, cs.prove_eq(rec.P + rec.n, g['TP'] + g['TC']), ('C03', 'C02'), 'input consumed by the queue is not what the '
                 'pass-through asks for %s' % where, fn=fn, rule='queue')

    # ------------------------------------------------------------ the state function
    def cb(s, e, st, callee, args, ins):
        if callee is not s.STATE:
            return None
        g = st.ghost
        s.called.add(g['mode'])
        fn = s.pyst[-1][0]
        if not e.oblige(st, g['mode'] == 'run', ('C17',), 'state function called again after the job is done', ins, fn, 'completed'):
            return []
        a = args[0] if args else None
        e.oblige(st, isinstance(a, Ptr) and a.r == s.job and st.cs.prove_eq(a.o, L(0)), ('C03',), 'state function called for another '
                 'job', ins, fn, 'driver')
        io = s.cur
        c = s.jget(st, 'stream', True)
        e.oblige(st, isinstance(c, Ptr) and c.r == io.sr and st.cs.prove_eq(c.o, L(0)), ('C01',), 'state function runs on other '
                 'buffers than the caller\'s', ins, fn, 'driver')
        e.oblige(st, g['last'] in ('', 'R'), ('C16', 'C17'), 'state function called again after it returned %s' % g['last'], ins, fn,
                 'driver')
        rec = s.after(st, io, fn)
        if rec is None:
            return []
        wl, cl = s.jget(st, 'write_len'), s.jget(st, 'copy_len')
        if not e.oblige(st, st.cs.prove(-wl) and st.cs.prove(-cl), ('C03',), 'state function entered while output is still queued', ins,
                        fn, 'queue'):
            return []
        s.deliver(st, io, rec, fn, 'before the next step')
        key = s.frames(st, ins)
        if key in s.seen:
            return []          # covered by the segment after the earlier call
        s.seen.append(key)
        if len(s.seen) > s.cuts:
            raise AnalysisError('driver loop keeps changing state of its own: %r' % (s.seen,))
        out = []
        for res in ('R', 'B', 'D', 'E', 'E-'):
            for case in (0, 1):
                t = st.copy()
                s.havoc(t, io, rec, case)
                h = t.ghost
                h['k'] = h['k'] + 1
                h['last'] = res[0]
                if res == 'R':
                    v = L(RS['RS_RUNNING'])
                elif res == 'B':
                    v = L(RS['RS_BLOCKED'])
                    for cond in s.blocked(t, io):
                        u = t.copy()
                        for q in cond:
                            u.cs.add_ge0(q)
                        if not u.cs.dead and u.cs.feasible():
                            out.append((u, v))
                    continue
                elif res == 'D':
                    v = L(RS['RS_DONE'])
                    h['mode'] = 'done'
                else:
                    hi = max(RS.values())
                    bad = {RS[k] for k in ('RS_RUNNING', 'RS_BLOCKED', 'RS_DONE')}
                    if res == 'E':
                        v = SYM.sym('failure', max(bad) + 1, I31)
                    else:
                        v = SYM.sym('failure', -I31 - 1, min(bad) - 1)
                    h['err'] = v
                out.append((t, v))
        return out

    def blocked(s, t, io):
        """what the job analyses prove of a step that returns RS_BLOCKED (C16)"""
        ain, aout = s.sget(t, io, 'avail_in'), s.sget(t, io, 'avail_out')
        return ((-aout,), (-ain, L(0) - io.eof), (io.ain - ain - 1, L(0) - io.eof))

    def havoc(s, t, io, rec, case):
        e = s.e
        g = t.ghost
        # nothing is remembered of how the call was reached
        cs = t.cs = s.base.copy()
        r = t.w(s.job)
        keep = {s.F[k][0] for k in ('statefn', 'stream')}
        r.cells = {o: c for o, c in r.cells.items() if o in keep}
        cin = SYM.sym('taken', 0, s.maxn)
        cs.add_ge0(io.ain - cin)
        out = SYM.sym('written', 0, s.maxn)
        cs.add_ge0(io.aout - out)
        q = t.w(io.sr)
        for nm, v in (('next_in', Ptr(io.inr, cin)), ('avail_in', io.ain - cin), ('next_out', Ptr(io.outr, out)),
                      ('avail_out', io.aout - out)):
            o, sz, _ = s.B[nm]
            q.cells[o] = (sz, v)
        t.w(io.outr).segs = ()
        t.w(io.outr).cells = {}
        for rid in [k for k in t.mem if t.mem[k].kind in ('scoop', 'heap') and t.mem[k].parent is None or
                    t.mem[k].kind == 'stack' and not s.active(t.mem[k])]:
            t.mem.pop(rid)
        if case == 0:
            sav = L(0)
            s.jset(t, 'scoop_buf', NULL)
            s.jset(t, 'scoop_next', NULL)
            s.jset(t, 'scoop_alloc', L(0))
        else:
            al, so, sav = SYM.sym('scoop_alloc', 0, 2 * s.maxn), SYM.sym('scoop_off', 0, 2 * s.maxn), SYM.sym('scoop_avail', 0, 2 * s.maxn)
            cs.add_ge0(al - so - sav)
            sc = e.new_region(t, 'scoop', al, 'scoop buffer')
            s.jset(t, 'scoop_buf', Ptr(sc, L(0)))
            s.jset(t, 'scoop_next', Ptr(sc, so))
            s.jset(t, 'scoop_alloc', al)
        s.jset(t, 'scoop_avail', sav)
        P = io.P + io.sav + cin - sav
        cs.add_ge0(P - io.P)
        if case:
            t.mem[sc].segs = ((so, sav, ('str', 'L', P)),)
        g['P'] = P
        g['o'] = out
        s.queue(t)

    # ------------------------------------------------------------ exits
    def exit(s, w, v, io, f):
        e = s.e
        cs = w.cs
        g = w.ghost
        v = e.to_s(w, v, 32)
        kind = s.classify(w, v)
        rec = s.after(w, io, f)
        if w.cs.dead or w.dead or not cs.feasible() or rec is None:
            return
        key = ('rs_job_iter/%s' % (g['last'] or 'none'), kind)
        s.outcomes[key] = s.outcomes.get(key, 0) + 1
        s.deliver(w, io, rec, f, 'when rs_job_iter returns')
        sf = s.jget(w, 'statefn', True)
        last = g['last']
        sfok = isnull(sf) if g['mode'] == 'done' else sf is s.STATE
        ended = cs.prove(rec.eof - 1)
        if kind == 'RS_DONE':
            e.oblige(w, g['mode'] == 'done', ('C03', 'C05', 'C17'), 'job reported complete although its last step was not', fn=f,
                     rule='done')
            e.oblige(w, cs.prove(-rec.wl) and cs.prove(-rec.n), ('C03',), 'job reported complete while output is still queued', fn=f,
                     rule='done')
            e.oblige(w, sfok, ('C17',), 'a completed job can be run again', fn=f, rule='completed')
        elif kind == 'RS_BLOCKED':
            ok = not (cs.feasible_with([rec.eof - 1, rec.aout - 1]) or last != 'B' and cs.feasible_with([rec.ain - 1, rec.aout - 1]))
            e.oblige(w, ok, ('C16',), 'asks to wait although neither output space nor offered input is used up', fn=f, rule='blocked')
            e.oblige(w, sfok, ('C16', 'C17'), 'suspended job does not go on with the step it was in', fn=f, rule='resume')
            idle = cs.prove(-rec.wl) and cs.prove(-rec.n)
            e.oblige(w, last == 'B' or not idle, ('C16',), 'asks to wait although no step did and nothing is queued', fn=f,
                     rule='blocked')
        elif kind == 'RS_RUNNING':
            e.oblige(w, False, ('C16', 'C17'), 'internal result "running" returned to the caller', fn=f, rule='driver')
        else:
            if last == 'E' and cs.prove_eq(v, g['err']):
                return
            ok = False
            if cs.prove_eq(v, L(RS['RS_INPUT_ENDED'])):
                # pass-through of more than the input has
                ok = cs.prove(rec.eof - 1) and cs.prove(-rec.ain) and cs.prove(-rec.sav) and cs.prove(rec.n - 1) and cs.prove(-rec.wl)
            elif cs.prove_eq(v, L(RS['RS_INTERNAL_ERROR'])):
                # the guard against spinning: only for a completed job
                ok = g['mode'] == 'done' and cs.prove(-rec.wl) and cs.prove(-rec.n) and cs.prove(-rec.cin) and cs.prove(-rec.out)
            e.oblige(w, ok and last != 'E', ('C16', 'C03'), 'fails with a result of its own (%r) although the last step returned %s' % (
                v, last or 'nothing'), fn=f, rule='driver')

    # ------------------------------------------------------------ live state of the driver itself
    def frames(s, st, ins):
        envs = [st.env] + list(reversed(st.stack))
        out = []
        sites = [(s.pyst[-1][0], ins)]
        for i in range(len(s.pyst) - 1, 0, -1):
            sites.append((s.pyst[i - 1][0], s.pyst[i][1]))
        for (fn, site), env in zip(sites, envs):
            lv = s.live(fn, site)
            out.append((fn.name, site.line, tuple(sorted((k, repr(st.cs.norm(env[k])) if isinstance(env[k], L) else repr(env[k]))
                                                         for k in lv if k in env))))
        for r in sorted((r for r in st.mem.values() if r.kind == 'stack' and s.active(r)), key=lambda r: repr(r.id)):
            out.append((r.name, tuple(sorted((o, repr(c[1])) for o, c in r.cells.items())), tuple(repr(x) for x in r.segs)))
        return tuple(out)

    def active(s, r):
        return any(r.name.startswith(f.src + ':') for f, _ in s.pyst)

    def live(s, fn, site):
        """registers of fn that may be used after site without being set again"""
        key = (fn.name, id(site))
        if key in s.uses:
            return s.uses[key]
        where = {}
        for b in fn.order:
            for k, i in enumerate(fn.blocks[b]):
                where[id(i)] = (b, k)
        if id(site) not in where:
            raise AnalysisError('call site of the driver lost')
        regs = {p[1] for p in fn.params} | {i.res for i in fn.ins() if i.res and i is not site}
        live = set()
        sb, sk = where[id(site)]
        for v in regs:
            seen = set()
            todo = [(sb, sk + 1, None)]
            hit = False
            while todo and not hit:
                b, k, prev = todo.pop()
                stop = False
                for i in fn.blocks[b][k:]:
                    if i.op == 'phi':
                        # phi operands are uses on the edge
                        if prev is not None and any(lab == prev and val == ('r', v) for val, lab in i.a):
                            hit = True
                        if i.res == v:
                            stop = True
                        continue
                    if hit or stop:
                        break
                    if s.mentions(i, v):
                        hit = True
                        break
                    if i.res == v:
                        stop = True
                        break
                if hit or stop:
                    continue
                for nb in s.succ(fn, b):
                    if (nb, b) not in seen:
                        seen.add((nb, b))
                        todo.append((nb, 0, b))
            if hit:
                live.add(v)
        s.uses[key] = live
        return live

    def mentions(s, i, v):
        def rec(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'r' and x[1] == v:
                    return True
                return any(rec(y) for y in x)
            if isinstance(x, list):
                return any(rec(y) for y in x)
            return False
        return rec(i.a) or rec(i.x)

    def succ(s, fn, b):
        if not hasattr(fn, "_succ"):
            raise AnalysisError("no control flow graph")
        return fn._succ[b]
