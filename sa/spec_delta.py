"""Specification of the delta job: every byte of the new file is covered exactly once, in order, by a
literal carrying it or by a copy of a basis range that was matched against it; well-framed output."""
from machine import *
from spec_sums import merge_pieces, is_slice, MAGICS
from spec_patch import LIT_N, COPY, MAGIC

CMDMAX = 17


def reaches(mod, names):
    """source functions from which one of `names` can be called (direct calls)"""
    callers = {}
    for f in mod.funcs.values():
        if f.decl:
            continue
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call' and isinstance(i.x, tuple) and i.x[0] == 'g':
                    callers.setdefault(i.x[1], set()).add(f.name)
    out = set()
    todo = [f.name for f in mod.funcs.values() if f.src in names]
    out.update(todo)
    while todo:
        x = todo.pop()
        for y in callers.get(x, ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


class DeltaMachine(Machine):
    name = 'delta'
    case = 'match'       # 'match': with signature; 'slack': without

    def start(s):
        e = s.e
        for need in ('basis_pos', 'basis_len', 'scan_buf', 'scan_len', 'scan_pos', 'signature'):
            if need not in s.F:
                raise AnalysisError('struct rs_job has no field ' + need)
        for n in ('rs_tube_write', 'rs_tube_copy', 'rs_signature_find_match', 'weaksum_update', 'weaksum_rotate',
                  'weaksum_rollout', 'weaksum_reset', 'weaksum_count', 'weaksum_digest', 'weaksum_init'):
            if s.m.fn(n) is None:
                raise AnalysisError('function %s not found' % n)
        S = e.summaries
        S['rs_tube_write'] = s.h_write
        S['rs_tube_copy'] = s.h_copy
        S['rs_signature_find_match'] = s.h_find
        S['rs_tube_catchup'] = s.h_catchup
        S['weaksum_update'] = s.h_update
        S['weaksum_rotate'] = s.h_rotate
        S['weaksum_rollin'] = s.h_rollin
        S['weaksum_rollout'] = s.h_rollout
        S['weaksum_reset'] = s.h_reset
        S['weaksum_count'] = s.h_count
        S['weaksum_digest'] = s.h_digest
        S['weaksum_init'] = s.h_init
        if s.m.fn('rs_emit_copy_cmd'):
            S['rs_emit_copy_cmd'] = s.h_emit_copy
        if s.m.fn('rs_emit_literal_cmd'):
            S['rs_emit_literal_cmd'] = s.h_emit_literal
        R = reaches(s.m, {'rs_signature_find_match'})

        def which(fn, lp):
            for b in lp.blocks:
                for i in fn.blocks[b]:
                    if i.op == 'call' and isinstance(i.x, tuple) and i.x[0] == 'g' and i.x[1] in R:
                        return True
            return False
        e.part = (which, s.loopkey, s.loopcanon, s.looptmpl)
        outs = []
        s.S = s.m.struct_di('rs_signature')
        if s.S is None:
            raise AnalysisError('struct rs_signature not found')
        if s.case == 'slack':
            sts = [(State(), NULL)]
            st = State()
            st, p = s.mksig(st, 0x72730137, 0, 0)
            sts.append((st, p))
        else:
            sts = []
            for m in (0x72730137, 0x72730147):
                sts.append(s.mksig(State(), m, 1, (1 << 31) - 1))
        for st, p in sts:
            for u in s.begin('rs_delta_begin', [p], st):
                q = s.jget(u, 'signature', True)
                if s.case == 'slack':
                    e.oblige(u, isnull(q), ('C07',), 'delta without usable signature keeps a signature', fn=s.m.fn('rs_delta_begin'),
                             rule='delta')
                    for r in list(u.mem):
                        if u.mem[r].kind == 'sig':
                            del u.mem[r]
                else:
                    ok = isinstance(q, Ptr) and q.r == p.r
                    if not e.oblige(u, ok, ('C07', 'C13'), 'delta job does not use the signature it was given',
                                    fn=s.m.fn('rs_delta_begin'), rule='delta'):
                        continue
                u.ghost.update(pm='hdr', nw=0, E=L(0), mE=L(0), mB=L(0), mL=L(0), pend=0, left=L(0), eofs=0,
                               nl=L(0), lb=L(0), lcb=L(0), nc=L(0), cb=L(0), ccb=L(0))
                u.ghost.setdefault('wc', L(0))
                u.ghost.setdefault('wp', L(0))
                u.ghost['mode'] = s.mkmode(u)
                outs.append(u)
        s.explore(outs)
        if not any(k[1] == 'RS_DONE' for k in s.outcomes):
            raise AnalysisError('delta job never completes in the analysis')

    def callers(s, st):
        return ('SIG',) if 'SIG' in st.mem else ()

    def mksig(s, st, magic, lo, hi):
        """a signature as the loader produces it"""
        e = s.e
        r = Region('SIG', 'sig', L(s.m.struct_size('rs_signature')), 'signature', default='lazy', structured=True)
        st.mem['SIG'] = r
        r.info = s.S
        r.const = False
        s.bl = SYM.sym('sig_block_len', 1, (1 << 31) - 1)
        cnt = SYM.sym('sig_count', lo, hi) if hi else L(0)

        def put(nm, v):
            o, sz, _ = s.S[nm]
            r.cells[o] = (sz, v)
        put('magic', L(magic))
        put('block_len', s.bl)
        put('strong_sum_len', SYM.sym('sig_strong', 1, 32))
        put('count', cnt)
        put('size', SYM.sym('sig_size', 1, (1 << 31) - 1))
        put('block_sigs', Opaque('block_sigs'))
        put('hashtable', Opaque('hashtable'))
        return st, Ptr('SIG', L(0))

    # ------------------------------------------------------------ partitioning
    def sign(s, st, v):
        """'0' or '+' ; forks when undecided"""
        return '0' if s.e.decide(st, -v) else '+'

    def keyparts(s, st):
        b = s.e.to_s(st, s.jget(st, 'basis_len'), 64)
        return s.sign(st, b) + s.sign(st, st.ghost['wc'])

    def mkmode(s, st):
        return '%s/%s/%d' % (st.ghost['pm'], s.keyparts(st), st.ghost['eofs'])

    def loopkey(s, st):
        k = s.keyparts(st)
        if k[0] == '0':
            for x in ('mE', 'mB', 'mL'):
                st.ghost[x] = L(0)
        if k[1] == '0':
            st.ghost['wp'] = L(0)
        idle = st.cs.prove(-s.jget(st, 'write_len') - s.jget(st, 'copy_len'))
        return (st.ghost['pm'], k, idle)

    def looptmpl(s, st):
        pos, ln = s.jget(st, 'scan_pos'), s.jget(st, 'scan_len')
        out = [ln - pos, ln - pos - st.ghost['wc'], pos, L(1 << 45) - ln, s.curpos(st, s.cur) - s.cur.P]
        q, av = s.jget(st, 'scoop_next', True), s.jget(st, 'scoop_avail')
        if isinstance(q, Ptr) and q.r in st.mem:
            for g in st.mem[q.r].segs:
                out += [q.o - g[0], g[0] + g[1] - q.o - av]
        out.append(L(s.wb[1]) - s.jget(st, 'write_len'))
        out.append(s.fldsig(st, 'block_len') - st.ghost['wc'])
        out += [L(k) - pos for k in s.limits()]
        return out

    def limits(s):
        """candidate limits on the scan position: the constants that are compared against"""
        if not hasattr(s, '_limits'):
            out = set()
            for f in s.m.funcs.values():
                if not f.decl:
                    for b in f.order:
                        for i in f.blocks[b]:
                            if i.op == 'icmp':
                                for x in i.a:
                                    if x[0] == 'c' and 4096 <= x[1] < (1 << 24):
                                        out.update((x[1] - 1, x[1], x[1] + 1))
            s._limits = sorted(out)
        return s._limits

    def templates(s, st):
        o = ('m', 'JOB', s.F['scan_pos'][0])
        c = ('m', 'JOB', s.F['copy_len'][0])
        return [({('g', 'left'): 1, o: -1, c: -1}, 0), ({('g', 'left'): 1, o: -1, ('g', 'wc'): -1, c: -1}, 0), ({o: -1}, 1 << 45),
                ({('m', 'SIG', s.S['block_len'][0]): 1, ('g', 'wc'): -1}, 0)] + [
                    ({o: -1}, k) for k in s.limits()]

    STATS = (('lit_cmds', 'nl'), ('lit_bytes', 'lb'), ('lit_cmdbytes', 'lcb'), ('copy_cmds', 'nc'), ('copy_bytes', 'cb'),
             ('copy_cmdbytes', 'ccb'))

    def statdiff(s, st):
        """keep only the difference between each statistic and what the commands written give"""
        D = s.m.struct_di('rs_stats')
        base = s.F['stats'][0]
        w = st.w(s.job)
        for nm, k in s.STATS:
            o, sz, _ = D[nm]
            v = s.e.load_raw(st, w, L(base + o), sz, INT(8 * sz))
            if not isinstance(v, L):
                raise AnalysisError('statistic %s is not a number' % nm)
            d = st.cs.norm(st.ghost[k] - v)
            M = 1 << (8 * sz)
            st.ghost[k] = L(d.c % M, {x: c for x, c in d.d.items() if c % M})
            w.cells[base + o] = (sz, L(0))

    def h_catchup(s, e, st, a, ins, f):
        """contract of rs_tube_catchup, which the tube analysis proves: everything queued goes out in order and
        RS_DONE is returned, or the output space is used up and RS_BLOCKED is returned"""
        cs = st.cs
        io = s.cur
        wl, n = s.jget(st, 'write_len'), s.jget(st, 'copy_len')
        aout = s.sget(st, io, 'avail_out')
        if cs.prove(-wl) and cs.prove(-n):
            return [(st, L(RS['RS_DONE']))]
        av = s.sget(st, io, 'avail_in') + s.jget(st, 'scoop_avail')
        if not cs.prove(-n) and not e.decide(st, av - n):
            st.note('not enough input for the literal data')
            return [(st, L(RS['RS_INPUT_ENDED']))]
        out = []
        adv = s.m.fn('rs_scoop_advance')
        if e.decide(st, aout - wl - n):
            s.jset(st, 'write_len', L(0))
            s.jset(st, 'copy_len', L(0))
            s.emit(st, io, wl + n)
            for t, _ in ([(st, None)] if cs.prove(-n) else e.call(st, adv, [Ptr(s.job, L(0)), n], ins)):
                out.append((t, L(RS['RS_DONE'])))
        else:
            if cs.prove(-n):
                k = L(0)
                s.jset(st, 'write_len', wl - aout)
            else:
                k = SYM.sym('copied', 0, None)
                w2 = SYM.sym('unwritten', 0, None)
                cs.add_ge0(n - k)
                cs.add_ge0(wl - w2)
                cs.add_eq0(wl - w2 + k - aout)
                s.jset(st, 'write_len', w2)
                s.jset(st, 'copy_len', n - k)
            s.emit(st, io, aout)
            for t, _ in ([(st, None)] if k == 0 else e.call(st, adv, [Ptr(s.job, L(0)), k], ins)):
                out.append((t, L(RS['RS_BLOCKED'])))
        return out

    def emit(s, st, io, k):
        r = st.w(io.sr)
        o, sz, _ = s.B['next_out']
        p = r.cells[o][1]
        r.cells[o] = (sz, Ptr(p.r, p.o + k))
        o, sz, _ = s.B['avail_out']
        r.cells[o] = (sz, r.cells[o][1] - k)

    def loopcanon(s, st):
        s.commit(st)
        s.statdiff(st)
        io = s.cur
        w = st.w(io.outr)
        w.cells = {}
        w.segs = ()
        w = st.w((s.job, s.wb[0]))
        w.cells = {}
        w.segs = ()
        st.ev = None

    def commit(s, st):
        """fold the latest match into the current run"""
        g = st.ghost
        if not g['pend']:
            return
        cs = st.cs
        if cs.prove(g['mL'] - 1) and cs.prove_eq(g['pE'], g['mE'] + g['mL']) and cs.prove_eq(g['pB'], g['mB'] + g['mL']):
            g['mL'] = g['mL'] + g['pL']
        else:
            g['mE'], g['mB'], g['mL'] = g['pE'], g['pB'], g['pL']
        for k in ('pE', 'pB', 'pL'):
            del g[k]
        g['pend'] = 0

    def fresh_io(s, st, case=1):
        io = Machine.fresh_io(s, st, case)
        g = st.ghost
        st.cs.add_ge0(L(1 << 60) - io.P)       # assumption: the new file is shorter than 2^60 bytes
        if g['eofs']:
            st.cs.add_eq0(io.eof - 1)
            st.cs.add_eq0(io.sav + io.ain - g['left'])
        else:
            st.cs.add_ge0(io.sav + io.ain - g['left'])
        return io

    # ------------------------------------------------------------ weak sum bookkeeping
    def isjobsum(s, p):
        return isinstance(p, Ptr) and p.r == s.job

    def h_init(s, e, st, a, ins, f):
        st.ghost['wc'] = L(0)
        st.ghost['wp'] = L(0)
        m = s.fldsig(st, 'magic')
        wk = s.m.enum('weaksum_kind_t')
        want = wk['RS_ROLLSUM'] if MAGICS[m.c][0] == 0 else wk['RS_RABINKARP']
        k = e.to_u(st, a[1], 32)
        e.oblige(st, st.cs.prove_eq(k, L(want)), ('C13', 'C15'), 'delta uses weak sum kind %r for a signature of kind %#x' % (k, m.c),
                 ins, rule='weak')
        return [(st, None)]

    def fldsig(s, st, nm):
        o, sz, _ = s.S[nm]
        return st.mem['SIG'].cells[o][1]

    def h_reset(s, e, st, a, ins, f):
        st.ghost['wc'] = L(0)
        st.ghost['wp'] = L(0)
        return [(st, None)]

    def h_count(s, e, st, a, ins, f):
        return [(st, st.ghost['wc'])]

    def slicepos(s, e, st, buf, n, ins):
        """position in the new file of the n bytes at buf, or None"""
        if not e.check_access(st, buf, n, False, ins):
            return None
        pcs = merge_pieces(st, e.read_content(st, buf.r, buf.o, n))
        if len(pcs) == 1 and pcs[0][1][0] == 'str' and pcs[0][1][1] == 'L' and st.cs.prove_eq(pcs[0][0], n):
            return pcs[0][1][2]
        return None

    def h_update(s, e, st, a, ins, f):
        g = st.ghost
        n = e.to_u(st, a[2], 64)
        if e.decide(st, -n):
            return [(st, None)]
        q = s.slicepos(e, st, a[1], n, ins)
        if st.dead:
            return []
        if not e.oblige(st, q is not None, ('C15', 'C07'), 'weak sum taken over bytes that are not the new file', ins, rule='weak'):
            return []
        if e.decide(st, -g['wc']):
            g['wp'], g['wc'] = q, n
        else:
            if not e.oblige(st, st.cs.prove_eq(q, g['wp'] + g['wc']), ('C15',), 'weak sum extended by bytes that do not follow it',
                            ins, rule='weak'):
                return []
            g['wc'] = g['wc'] + n
        return [(st, None)]

    def byteis(s, e, st, v, pos):
        v = e.to_u(st, v, 8)
        return st.cs.prove_eq(v, e.byte(st, 'L', st.cs.norm(pos)))

    def h_rotate(s, e, st, a, ins, f):
        g = st.ghost
        ok = st.cs.prove(g['wc'] - 1) and s.byteis(e, st, a[1], g['wp'])
        e.oblige(st, ok, ('C15',), 'byte rolled out of the weak sum is not the first of its window', ins, rule='weak')
        ok = s.byteis(e, st, a[2], g['wp'] + g['wc'])
        e.oblige(st, ok, ('C15',), 'byte rolled into the weak sum is not the one after its window', ins, rule='weak')
        g['wp'] = g['wp'] + 1
        return [(st, None)]

    def h_rollin(s, e, st, a, ins, f):
        g = st.ghost
        e.oblige(st, s.byteis(e, st, a[1], g['wp'] + g['wc']), ('C15',), 'byte rolled into the weak sum is not the one after its window',
                 ins, rule='weak')
        g['wc'] = g['wc'] + 1
        return [(st, None)]

    def h_rollout(s, e, st, a, ins, f):
        g = st.ghost
        ok = st.cs.prove(g['wc'] - 1) and s.byteis(e, st, a[1], g['wp'])
        e.oblige(st, ok, ('C15',), 'byte rolled out of the weak sum is not the first of its window', ins, rule='weak')
        g['wp'] = g['wp'] + 1
        g['wc'] = g['wc'] - 1
        return [(st, None)]

    def h_digest(s, e, st, a, ins, f):
        v = SYM.sym('digest', 0, (1 << 32) - 1)
        DIG[next(iter(v.d))] = (st.ghost['wp'], st.ghost['wc'])
        return [(st, v)]

    def h_find(s, e, st, a, ins, f):
        g = st.ghost
        sg = s.jget(st, 'signature', True)
        e.oblige(st, isinstance(a[0], Ptr) and isinstance(sg, Ptr) and a[0].r == sg.r, ('C13',),
                 'block looked up in something that is not the job\'s signature', ins, rule='match')
        n = e.to_u(st, a[3], 64)
        q = s.slicepos(e, st, a[2], n, ins)
        if st.dead:
            return []
        if not e.oblige(st, q is not None, ('C13', 'C07'), 'lookup data is not a range of the new file', ins, rule='match'):
            return []
        w = st.cs.norm(a[1]) if isinstance(a[1], L) else None
        d = None
        if w is not None and len(w.d) == 1 and w.c == 0:
            d = DIG.get(next(iter(w.d)))
        ok = d is not None and st.cs.prove_eq(d[0], q) and st.cs.prove_eq(d[1], n)
        e.oblige(st, ok, ('C15',), 'weak sum used for the lookup is not that of the data looked up', ins, rule='weak')
        out = []
        z = st.copy()
        z.note('no match')
        out.append((z, L(-1)))
        y = st
        s.commit(y)
        b = SYM.sym('match_pos', 0, 1 << 62)
        y.ghost.update(pend=1, pE=q, pB=b, pL=n)
        y.note('match')
        out.append((y, b))
        return out

    # ------------------------------------------------------------ the written delta
    def h_write(s, e, st, a, ins, f):
        g = st.ghost
        cs = st.cs
        T = ('C09',)
        n = cs.norm(e.to_u(st, a[2], 64))
        if not n.isconst() or n.c > 64:
            raise AnalysisError('variable-length write to the tube by the delta job')
        cl = s.jget(st, 'copy_len')
        e.oblige(st, cs.prove(-cl), ('C03', 'C07'), 'command bytes queued while literal data is still pending', ins, rule='tube-order')
        if n.c == 0:
            return None
        pcs = e.read_content(st, a[1].r, a[1].o, n)
        bs = s.bytes_of(st, pcs)
        if bs is None or any(not isinstance(b, L) for b in bs):
            e.oblige(st, False, T, 'bytes written to the delta are not determined: %r' % (pcs,), ins, rule='framing')
            return None
        buf = [g['w%d' % i] for i in range(g['nw'])] + bs
        new = dict(g)
        for i in range(g['nw']):
            del new['w%d' % i]
        while buf:
            pm = new['pm']
            if pm == 'hdr':
                if len(buf) < 4:
                    break
                v = buf[0].scale(1 << 24) + buf[1].scale(1 << 16) + buf[2].scale(256) + buf[3]
                e.oblige(st, cs.prove_eq(v, L(MAGIC)), T, 'delta does not start with the delta magic number (%r)' % cs.norm(v), ins,
                         rule='framing')
                buf = buf[4:]
                new['pm'] = 'cmd'
                continue
            if pm != 'cmd':
                e.oblige(st, False, ('C09', 'C07'), 'bytes written %s' % ('after the end command' if pm == 'end' else
                         'where literal data is due'), ins, rule='framing')
                st.dead = True
                return None
            op = cs.norm(buf[0])
            if e.decide_eq(st, op):
                buf = buf[1:]
                new['pm'] = 'end'
                continue
            if e.decide(st, L(0x40) - op):
                new['pm'] = 'lit'
                new['lit'] = op
                new['lcb'] = new['lcb'] + 1
                new['nl'] = new['nl'] + 1
                buf = buf[1:]
                continue
            if not op.isconst():
                e.oblige(st, False, ('C09', 'C08', 'C07'), 'command byte %r is neither a short literal nor a fixed command' % op, ins,
                         rule='framing')
                st.dead = True
                return None
            if op.c in LIT_N:
                k = LIT_N[op.c]
                if len(buf) < 1 + k:
                    break
                new['pm'] = 'lit'
                new['lit'] = be(buf[1:1 + k])
                new['lcb'] = new['lcb'] + 1 + k
                new['nl'] = new['nl'] + 1
                buf = buf[1 + k:]
                continue
            if op.c not in COPY:
                e.oblige(st, False, ('C09', 'C08'), 'reserved command byte %#x written' % op.c, ins, rule='framing')
                st.dead = True
                return None
            k1, k2 = COPY[op.c]
            if len(buf) < 1 + k1 + k2:
                break
            pos, ln = be(buf[1:1 + k1]), be(buf[1 + k1:1 + k1 + k2])
            buf = buf[1 + k1 + k2:]
            s.check_copy(e, st, new, pos, ln, ins)
            new['nc'] = new['nc'] + 1
            new['cb'] = new['cb'] + ln
            new['ccb'] = new['ccb'] + 1 + k1 + k2
            new['E'] = new['E'] + ln
        new['nw'] = len(buf)
        for i, b in enumerate(buf):
            new['w%d' % i] = b
        st.ghost = new
        return None

    def queue(s, e, st, lo, hi, ins):
        """a complete command of lo..hi bytes goes into the tube"""
        g = st.ghost
        e.oblige(st, st.cs.prove(-s.jget(st, 'copy_len')), ('C03', 'C07'), 'command queued while literal data is still pending', ins,
                 rule='tube-order')
        ok = e.oblige(st, g['pm'] == 'cmd' and g['nw'] == 0, ('C09', 'C07'), 'command written %s' % (
            'after the end command' if g['pm'] == 'end' else 'where something else is due'), ins, rule='framing')
        if not ok:
            st.dead = True
            return False
        wl = s.jget(st, 'write_len')
        k = SYM.sym('cmdlen', lo, hi)
        ok = e.oblige(st, st.cs.prove(L(s.wb[1] - hi) - wl), s.tags_tube, 'command of up to %d bytes may not fit the output queue, %r queued' % (
            hi, wl), ins, rule='tube-rep')
        s.jset(st, 'write_len', wl + k)
        return True

    def h_emit_copy(s, e, st, a, ins, f):
        """contract proved by EmitUnit"""
        pos, ln = e.to_s(st, a[1], f.params[1][0].n), e.to_s(st, a[2], f.params[2][0].n)
        if not s.queue(e, st, 3, 17, ins):
            return []
        s.check_copy(e, st, st.ghost, pos, ln, ins)
        st.ghost['E'] = st.ghost['E'] + ln
        return [(st, None)]

    def h_emit_literal(s, e, st, a, ins, f):
        n = e.to_s(st, a[1], f.params[1][0].n)
        if not s.queue(e, st, 1, 9, ins):
            return []
        ok = e.oblige(st, st.cs.prove(n - 1), ('C09', 'C07'), 'literal command for %r bytes' % st.cs.norm(n), ins, rule='literal')
        if not ok:
            st.dead = True
            return []
        st.ghost['pm'] = 'lit'
        st.ghost['lit'] = n
        return [(st, None)]

    def check_copy(s, e, st, g, pos, ln, ins):
        cs = st.cs
        e.oblige(st, cs.prove(ln - 1) and cs.prove(pos), ('C09', 'C08'), 'copy command with length %r at %r' % (cs.norm(ln), cs.norm(pos)),
                 ins, rule='framing')
        E = g['E']
        runs = [(g['mE'], g['mB'], g['mL'])]
        if g['pend']:
            runs.append((g['pE'], g['pB'], g['pL']))
            if cs.prove_eq(g['pE'], g['mE'] + g['mL']) and cs.prove_eq(g['pB'], g['mB'] + g['mL']):
                runs.append((g['mE'], g['mB'], g['mL'] + g['pL']))
        ok = False
        for a, b, n in runs:
            if cs.prove(E - a) and cs.prove(a + n - E - ln) and cs.prove_eq(pos - E, b - a):
                ok = True
                break
        e.oblige(st, ok, ('C07', 'C13', 'C08'),
                 'copy command (basis %r, length %r) for new-file offset %r was not matched: matched runs %r' % (
                     cs.norm(pos), cs.norm(ln), cs.norm(E), [tuple(cs.norm(x) for x in r) for r in runs]), ins, rule='match')

    def h_copy(s, e, st, a, ins, f):
        g = st.ghost
        cs = st.cs
        n = e.to_u(st, a[1], 64)
        ok = g['pm'] == 'lit' and g['nw'] == 0
        if not e.oblige(st, ok, ('C07', 'C09'), 'input passed through without a literal command', ins, rule='framing'):
            st.dead = True
            return []
        e.oblige(st, cs.prove_eq(n, g['lit']), ('C07', 'C08', 'C09'), 'literal command says %r bytes, %r are passed through' % (
            cs.norm(g['lit']), cs.norm(n)), ins, rule='literal')
        e.oblige(st, cs.prove(n - 1), ('C09',), 'literal of no bytes', ins, rule='literal')
        cl = s.jget(st, 'copy_len')
        e.oblige(st, cs.prove(-cl), ('C03', 'C07'), 'pass-through announced while another is pending', ins, rule='tube-order')
        io = s.cur
        p = s.curpos(st, io)
        e.oblige(st, cs.prove_eq(p, g['E']), ('C07',), 'literal carries new-file bytes from %r but %r are covered so far' % (
            cs.norm(p), cs.norm(g['E'])), ins, rule='coverage')
        av = s.sget(st, io, 'avail_in') + s.jget(st, 'scoop_avail')
        e.oblige(st, cs.prove(av - n), ('C07', 'C16'), 'literal longer than the data available', ins, rule='literal')
        g = st.ghost
        g['E'] = g['E'] + n
        if 'rs_emit_literal_cmd' not in e.summaries:
            g['lb'] = g['lb'] + n
        del g['lit']
        g['pm'] = 'cmd'
        return None

    # ------------------------------------------------------------ steps
    def canon(s, st):
        s.jset(st, 'scan_buf', NULL)
        Machine.canon(s, st)

    def merge(s, st, pieces):
        return []

    def close(s, t, rec, f):
        """common end-of-step checks"""
        e = s.e
        cs = t.cs
        g = t.ghost
        e.oblige(t, g['nw'] == 0 and g['pm'] != 'lit', ('C09',), 'command left incomplete at the end of a step', fn=f, rule='framing')
        s.stats(t, f)
        s.commit(t)

    def spec_step(s, gst, t, kind, rec, f):
        e = s.e
        cs = t.cs
        g = t.ghost
        s.close(t, rec, f)
        if g['nw'] or g['pm'] == 'lit':
            return False
        Pn = rec.P + rec.n
        # accounting between what is covered and what was consumed
        b = e.to_s(t, s.jget(t, 'basis_len'), 64)
        bz = e.decide(t, -b)
        if g['pm'] == 'end':
            e.oblige(t, kind == 'RS_RUNNING', ('C09',), 'job waits after its end command', fn=f, rule='framing')
        ok = cs.prove(Pn - g['E']) if not bz else cs.prove_eq(Pn, g['E'])
        if bz:
            e.oblige(t, ok, ('C07',), 'input consumed up to %r but covered up to %r' % (cs.norm(Pn), cs.norm(g['E'])), fn=f,
                     rule='coverage')
        eof = e.decide(t, rec.eof - 1)
        g['left'] = rec.sav + rec.ain - rec.n
        if kind == 'RS_BLOCKED' and not eof:
            pass
        g['eofs'] = 1 if eof else 0
        g['P'] = Pn
        if bz:
            for x in ('mE', 'mB', 'mL'):
                g[x] = L(0)
        g['mode'] = s.mkmode(t)
        if e.decide(t, -g['wc']):
            g['wp'] = L(0)
        return True

    def spec_final(s, gst, t, kind, v, rec, f):
        e = s.e
        cs = t.cs
        g = t.ghost
        s.close(t, rec, f)
        if not e.oblige(t, kind == 'RS_DONE', ('C07',), 'delta job ends with %s' % kind, fn=f, rule='result'):
            return
        Pn = rec.P + rec.n
        e.oblige(t, g['pm'] == 'end', ('C09',), 'delta finished without its end command', fn=f, rule='framing')
        ok = cs.prove(rec.eof - 1) and cs.prove(rec.n - rec.sav - rec.ain)
        e.oblige(t, ok, ('C07', 'C09'), 'delta finished before the end of the new file', fn=f, rule='coverage')
        e.oblige(t, cs.prove_eq(Pn, g['E']), ('C07', 'C09'), 'delta covers %r bytes of a new file of %r' % (cs.norm(g['E']), cs.norm(Pn)),
                 fn=f, rule='coverage')

    def stats(s, t, f):
        s.statdiff(t)
        for nm, k in s.STATS:
            s.e.oblige(t, t.ghost[k] == 0, ('C25',), 'statistic %s differs from the commands written by %r' % (nm, t.ghost[k]),
                       fn=f, rule='stats')


class EmitUnit(DeltaMachine):
    """the command writers alone: for every argument, exactly one command that decodes to the arguments, with the
    statistics that go with it"""
    name = 'emit'

    def start(s):
        e = s.e
        e.summaries['rs_tube_write'] = s.h_write
        s.nodes['emit'] = 0
        s.G = {}
        for fname in ('rs_emit_copy_cmd', 'rs_emit_literal_cmd'):
            f = s.m.fn(fname)
            if f is None:
                continue
            w = [p[0].n for p in f.params[1:]]
            st = State()
            jr = Region('JOB', 'job', L(s.m.struct_size('rs_job')), 'job', default='zero', structured=True)
            jr.info = s.F
            st.mem['JOB'] = jr
            s.job = 'JOB'
            s.e.subregion(st, s.job, s.wb[0], s.wb[1])
            st.ghost.update(pm='cmd', nw=0, E=L(0), mE=L(0), mB=L(0), mL=L(0), pend=0, left=L(0), eofs=0,
                            nl=L(0), lb=L(0), lcb=L(0), nc=L(0), cb=L(0), ccb=L(0))
            D = s.m.struct_di('rs_stats')
            base = s.F['stats'][0]
            jr = st.w('JOB')
            for nm, k in s.STATS:
                o, sz, _ = D[nm]
                v = SYM.sym(nm, 0, (1 << (8 * sz)) - 1)
                jr.cells[base + o] = (sz, v)
                st.ghost[k] = v
            if fname == 'rs_emit_copy_cmd':
                if len(w) != 2:
                    raise AnalysisError('rs_emit_copy_cmd does not take a position and a length')
                pos, ln = SYM.sym('where', 0, (1 << (w[0] - 1)) - 1), SYM.sym('len', 1, (1 << (w[1] - 1)) - 1)
                st.ghost.update(mB=pos, mL=ln)
                args = [pos, ln]
            else:
                if len(w) != 1:
                    raise AnalysisError('rs_emit_literal_cmd does not take a length')
                ln = SYM.sym('len', 1, (1 << (w[0] - 1)) - 1)
                args = [ln]
            for t, _ in e.call(st, f, [Ptr('JOB', L(0))] + args):
                g = t.ghost
                s.nodes['emit'] += 1
                ok = g['nw'] == 0
                if fname == 'rs_emit_copy_cmd':
                    ok = ok and g['pm'] == 'cmd' and t.cs.prove_eq(g['E'], ln)
                    lo, hi = 3, 17
                else:
                    ok = ok and g['pm'] == 'lit' and t.cs.prove_eq(g['lit'], ln)
                    if ok:
                        g['lb'] = g['lb'] + ln
                    lo, hi = 1, 9
                e.oblige(t, ok, ('C08', 'C09', 'C07'), 'written bytes are not one command for the given arguments: %r' % (
                    {k: v for k, v in g.items() if k in ('pm', 'nw', 'E', 'lit')},), fn=f, rule='emit')
                wl = s.jget(t, 'write_len')
                e.oblige(t, t.cs.prove(wl - lo) and t.cs.prove(L(hi) - wl), ('C08', 'C03'), 'command takes %r bytes' % wl, fn=f,
                         rule='emit')
                s.stats(t, f)


DIG = {}


def be(bs):
    v = L(0)
    for b in bs:
        v = v.scale(256) + b
    return v
