"""Specification of the patch job: the documented delta format and the copy-callback contract."""
from machine import *

MAGIC = 0x72730236
LIT_N = {0x41: 1, 0x42: 2, 0x43: 4, 0x44: 8}
WID = [1, 2, 4, 8]
COPY = {0x45 + 4 * i + j: (WID[i], WID[j]) for i in range(4) for j in range(4)}


class PatchMachine(Machine):
    name = 'patch'
    ALL = ('C02', 'C04', 'C06', 'C08')

    def start(s):
        s.e.callback = s.copy_cb
        s.cbp = Opaque('copy_cb')
        out = s.begin('rs_patch_begin', [s.cbp, Opaque('copy_arg')])
        for t in out:
            t.ghost['mode'] = 'hdr'
            t.ghost['c'] = L(0)
            for k in ('nl', 'lb', 'lcb', 'nc', 'cb', 'ccb'):
                t.ghost[k] = L(0)
        s.explore(out)

    def decode(s, st):
        """(kind, header length, v1, v2) of the current command; may Fork on the opcode"""
        b = s.hb(st, 0)
        c = st.cs
        b = c.norm(b)
        e = s.e
        if not e.decide(st, b - 1):
            return 'end', 1, None, None
        if e.decide(st, L(0x40) - b):
            return 'lit', 1, b, None
        for op, n in LIT_N.items():
            if e.decide_eq(st, b - op):
                return 'lit', 1 + n, s.be(st, 1, n), None
        if e.decide(st, b - 0x55):
            return 'res', 1, None, None
        for op, (n1, n2) in COPY.items():
            if e.decide_eq(st, b - op):
                return 'copy', 1 + n1 + n2, s.be(st, 1, n1), s.be(st, 1 + n1, n2)
        raise AnalysisError('opcode partition')

    def templates(s, st):
        if st.ghost['mode'] == 'copying':
            g = lambda k: ('g', k)
            return [({g('p'): -1, g('d'): -1}, (1 << 63) - 1), ({g('l'): 1, g('d'): -1}, -1),
                    ({g('l'): -1}, (1 << 63) - 1), ({g('d'): 1}, 0), ({g('p'): 1}, 0)]
        return ()

    def opclass(s, st):
        b = st.cs.norm(s.hb(st, 0))
        return '%#x' % b.c if b.isconst() else ''

    # ------------------------------------------------------------ callback
    def copy_cb(s, eng, st, callee, args, ins):
        if callee is not s.cbp:
            return None
        cs = st.cs
        io = s.cur
        nout = s.sget(st, io, 'next_out')
        aout = s.sget(st, io, 'avail_out')
        pos = args[1]
        e = s.e
        plen, pptr = args[2], args[3]
        req = e.to_u(st, e.load(st, plen, INT(64), ins), 64)
        ptr = e.load(st, pptr, PTR, ins)
        if st.dead:
            return []
        e.oblige(st, isinstance(ptr, Ptr) and ptr.r == nout.r and cs.prove_eq(ptr.o, nout.o), ('C06',),
                 'basis callback is not given the current output position', ins, rule='copy-callback')
        e.oblige(st, cs.prove(aout - req), ('C06', 'C01'), 'basis callback asked for more than the output space: %r > %r' % (
            cs.norm(req), cs.norm(aout)), ins, rule='copy-callback')
        e.oblige(st, cs.prove(req - 1), ('C06', 'C17'), 'basis callback asked for nothing', ins, rule='copy-callback')
        mode = st.ghost['mode']
        if mode[:3] == 'cmd':
            c0 = io.P - st.ghost['c']
            Pn = s.curpos(st, io)
            kind, hl, v1, v2 = s.decode(st)
            ok = kind == 'copy' and cs.prove_eq(Pn - c0, L(hl))
            e.oblige(st, ok, ('C04', 'C06', 'C08'), 'basis data requested without a complete copy command (decoded %s)' % kind,
                     ins, rule='copy-callback')
            if not ok:
                return []
            p, l = e.to_s(st, v1, 64), e.to_s(st, v2, 64)
            e.oblige(st, cs.prove(p) and cs.prove(l - 1), ('C04',),
                     'copy command with invalid position %r or length %r executed' % (p, l), ins, rule='copy-callback')
            st.ghost['mode'] = 'copying'
            s.drop_bytes(st)
            st.ghost['p'], st.ghost['l'], st.ghost['d'] = p, l, L(0)
            st.ghost['nc'] = st.ghost['nc'] + 1
            st.ghost['cb'] = st.ghost['cb'] + l
            st.ghost['ccb'] = st.ghost['ccb'] + hl
        elif mode != 'copying':
            e.oblige(st, False, ('C04', 'C06'), 'basis data requested outside any copy command', ins, rule='copy-callback')
            return []
        g = st.ghost
        done = g['d'] + nout.o
        pos = e.to_s(st, pos, 64)
        e.oblige(st, cs.prove_eq(pos, g['p'] + done), ('C06', 'C08'),
                 'basis position %r is not command position plus bytes already copied %r' % (
                     cs.norm(pos), cs.norm(g['p'] + done)), ins, rule='copy-callback')
        e.oblige(st, cs.prove(g['l'] - done - req), ('C06',),
                 'basis callback asked past the end of the copied range: %r more than %r' % (
                     cs.norm(req), cs.norm(g['l'] - done)), ins, rule='copy-callback')
        res = []
        # failure
        t = st.copy()
        r = SYM.sym('cb_result', 100, 108)
        t.ghost['cberr'] = r
        t.note('copy callback fails')
        res.append((t, r))
        # success: in place or from its own buffer, any claimed length
        for own in (False, True):
            t = st.copy()
            got = SYM.sym('cb_len', 0, 1 << 46)
            t.cs.add_ge0(L((1 << 63) - 1) - pos - got)   # no data exists beyond the largest offset
            e.store(t, plen, 8, got, ins)
            t.note('copy callback delivers %r bytes%s' % (got, ' in its own buffer' if own else ''))
            if own:
                rid = e.new_region(t, 'cbbuf', got, "callback's buffer", const=True)
                t.mem[rid].segs = ((L(0), got, ('str', 'basis', pos)),)
                e.store(t, pptr, 8, Ptr(rid, L(0)), ins)
            else:
                # the callback may fill at most the requested space
                e.write_content(t, ptr.r, ptr.o, [(req, ('str', 'basis', pos))], req)
            t.ghost['claimed'] = got
            if t.cs.dead:
                continue
            res.append((t, L(RS['RS_DONE'])))
        return res

    # ------------------------------------------------------------ step specification
    def spec_step(s, g, t, kind, rec, f):
        e = s.e
        cs = t.cs
        gh = t.ghost
        io = rec.io
        if 'cberr' in gh:
            e.oblige(t, False, ('C06', 'C18'), 'failure of the basis callback is not reported', fn=f, rule='propagate')
            return False
        claimed = gh.pop('claimed', None)
        if claimed is not None and not cs.prove(claimed - 1):
            if e.decide(t, -claimed):
                gh['_noprogok'] = L(1)
        if not e.oblige(t, cs.prove(-rec.wl), ('C06', 'C03'), 'patch job queued bytes of its own', fn=f, rule='output'):
            return False
        adv = rec.P - io.P
        mode = gh['mode']
        if mode == 'hdr':
            c = cs.norm(gh['c'] + adv)
            if not e.oblige(t, cs.prove(-rec.out) and cs.prove(-rec.n), ('C04',), 'output before the delta magic was checked',
                            fn=f, rule='magic'):
                return False
            if e.decide(t, c - 4):
                ok = cs.prove(L(4) - c) and cs.prove_eq(s.be(t, 0, 4), L(MAGIC))
                e.oblige(t, ok, ('C04',), 'delta accepted without the delta magic number', fn=f, rule='magic')
                if not ok:
                    return False
                gh['mode'] = 'cmd'
                s.drop_bytes(t)
                c = L(0)
            else:
                s.keep_bytes(t, c)
            gh['c'] = c
            gh['P'] = rec.P
            return True
        if mode == 'copying':
            ok = cs.prove_eq(rec.P, io.P) and cs.prove(-rec.n)
            if not e.oblige(t, ok, ('C02', 'C06'), 'delta input consumed while a copy command is in progress', fn=f,
                            rule='copy'):
                return False
            if not s.check_basis_out(t, rec, f):
                return False
            if claimed is not None:
                e.oblige(t, cs.prove(claimed - rec.out), ('C06',),
                         'more bytes emitted than the basis callback supplied', fn=f, rule='copy')
            d = cs.norm(gh['d'] + rec.out)
            e.oblige(t, cs.prove(gh['l'] - d), ('C06',), 'more bytes emitted than the copy command announced', fn=f,
                     rule='copy')
            if not e.decide(t, gh['l'] - d - 1):
                gh['mode'] = 'cmd'
                for k in ('p', 'l', 'd'):
                    gh.pop(k)
                gh['c'] = L(0)
            else:
                gh['d'] = d
            gh['P'] = rec.P
            return True
        # mode cmd
        if not e.oblige(t, cs.prove(-rec.out), ('C04', 'C06'), 'output produced outside any command', fn=f, rule='output'):
            return False
        c0 = io.P - gh['c']
        c = cs.norm(rec.P - c0)
        if e.decide(t, rec.n - 1):
            # literal pass-through
            k, hl, v1, v2 = s.decode(t)
            ok = k == 'lit' and cs.prove_eq(c, L(hl))
            if not e.oblige(t, ok, s.ALL, 'literal data passed through without a complete literal command (decoded %s, '
                            'consumed %r)' % (k, c), fn=f, rule='literal'):
                return False
            v = e.to_s(t, v1, 64)
            if not e.oblige(t, cs.prove(v - 1), ('C04',), 'literal command with invalid length %r executed' % v, fn=f,
                            rule='literal'):
                return False
            if not e.oblige(t, cs.prove_eq(rec.n, v), s.ALL, 'literal command of length %r passes through %r bytes' % (
                    v, rec.n), fn=f, rule='literal'):
                return False
            gh['nl'] = gh['nl'] + 1
            gh['lb'] = gh['lb'] + v
            gh['lcb'] = gh['lcb'] + hl
            gh['P'] = cs.norm(rec.P + rec.n)
            gh['c'] = L(0)
            gh['mode'] = 'cmd'
            s.drop_bytes(t)
            return True
        # a command longer than the longest header has run away
        if not e.oblige(t, cs.prove(L(17) - c), s.ALL, 'more input consumed than any command header has (%r)' % c, fn=f,
                        rule='consume'):
            return False
        if e.decide(t, c - 1):
            k, hl, v1, v2 = s.decode(t)
            # a complete command must be executed before anything behind it is consumed
            if not e.oblige(t, cs.prove(L(hl) - c), s.ALL, 'input behind a complete %s command (header of %d bytes) consumed '
                            'before the command was executed or refused (%r bytes)' % (k, hl, c), fn=f, rule='consume'):
                return False
            s.keep_bytes(t, c)
            gh['mode'] = 'cmd:%s%s' % (k, s.opclass(t))
        gh['c'] = c
        gh['P'] = rec.P
        return True

    def check_basis_out(s, t, rec, f):
        cs = t.cs
        gh = t.ghost
        if cs.prove(-rec.out):
            return True
        pos = gh['p'] + gh['d']
        ok = True
        tot = L(0)
        for ln, src in rec.pieces:
            if src[0] != 'str' or src[1] != 'basis' or not cs.prove_eq(src[2], pos + tot):
                ok = False
            tot = tot + ln
        ok = ok and cs.prove_eq(tot, rec.out)
        return s.e.oblige(t, ok, ('C06',), 'output is not the basis data at the copied position: %r, wanted from %r' % (
            rec.pieces, cs.norm(pos)), fn=f, rule='copy')

    def spec_final(s, g, t, kind, v, rec, f):
        e = s.e
        cs = t.cs
        gh = t.ghost
        io = rec.io
        mode = gh['mode']
        err = gh.pop('cberr', None)
        gh.pop('claimed', None)
        if err is not None:
            e.oblige(t, cs.prove_eq(err, v), ('C06', 'C18'), 'basis callback error %r reported as %s' % (err, kind), fn=f,
                     rule='propagate')
            return
        if mode == 'hdr':
            c0 = io.P - gh['c']
            tot = rec.P - c0 + rec.sav + rec.ain
            if kind == 'RS_BAD_MAGIC':
                x = s.be(t, 0, 4) - MAGIC
                ok = cs.prove_eq(rec.P - c0, L(4)) and (cs.prove(x - 1) or cs.prove(-x - 1))
                e.oblige(t, ok, ('C04',), 'bad-magic error for a stream that has the delta magic', fn=f, rule='magic')
            elif kind == 'RS_INPUT_ENDED':
                e.oblige(t, cs.prove(rec.eof - 1) and cs.prove(L(3) - tot), ('C05', 'C02'),
                         'end of input reported although the header is available', fn=f, rule='truncation')
            else:
                e.oblige(t, False, ('C05', 'C04'), 'patch ends with %s before the delta header was read' % kind, fn=f,
                         rule='truncation')
            return
        if mode == 'copying':
            e.oblige(t, False, ('C05', 'C06'), 'patch ends with %s in the middle of a copy command' % kind, fn=f, rule='copy')
            return
        c0 = io.P - gh['c']
        c = cs.norm(rec.P - c0)
        tot = c + rec.sav + rec.ain
        e.oblige(t, cs.prove(-rec.out) and cs.prove(-rec.wl) and cs.prove(-rec.n), ('C04', 'C05'),
                 'output produced by a step that ends the job', fn=f, rule='output')
        if kind == 'RS_DONE':
            k, hl, v1, v2 = s.decode(t)
            e.oblige(t, k == 'end' and cs.prove_eq(c, L(1)), ('C05', 'C04'),
                     'patch reports success without having processed an end command (decoded %s)' % k, fn=f,
                     rule='truncation')
            s.check_stats(t, f)
        elif kind == 'RS_INPUT_ENDED':
            ok = cs.prove(rec.eof - 1)
            if ok and e.decide(t, tot - 1):
                k, hl, v1, v2 = s.decode(t)
                ok = cs.prove(L(hl - 1) - tot)
            e.oblige(t, ok, ('C05', 'C02', 'C08'), 'end of input reported although the command is complete', fn=f,
                     rule='truncation')
        elif kind == 'RS_CORRUPT':
            ok = cs.prove(c - 1)
            why = ''
            if ok:
                k, hl, v1, v2 = s.decode(t)
                why = k
                if k == 'res':
                    ok = True
                elif k == 'lit':
                    ok = cs.prove_eq(c, L(hl)) and cs.prove(-e.to_s(t, v1, 64))
                elif k == 'copy':
                    ok = cs.prove_eq(c, L(hl))
                    if ok:
                        p, l = e.to_s(t, v1, 64), e.to_s(t, v2, 64)
                        ok = not cs.feasible_with([p, l - 1])
                else:
                    ok = False
            e.oblige(t, ok, ('C04', 'C08'), 'well-formed command (%s) rejected as corrupt' % why, fn=f, rule='reject')
        else:
            e.oblige(t, False, ('C04', 'C05'), 'patch ends with unexpected result %s' % kind, fn=f, rule='result')

    def check_stats(s, t, f):
        try:
            D = s.m.struct_di('rs_stats')
        except Exception:
            return
        base = s.F['stats'][0]
        for gk, nm in (('nl', 'lit_cmds'), ('lb', 'lit_bytes'), ('lcb', 'lit_cmdbytes'), ('nc', 'copy_cmds'),
                       ('cb', 'copy_bytes'), ('ccb', 'copy_cmdbytes')):
            o, sz, _ = D[nm]
            v = s.e.load_raw(t, t.mem[s.job], L(base + o), sz, INT(8 * sz))
            ok = isinstance(v, L) and (t.cs.prove_eq(v, t.ghost[gk]) or
                                       t.cs.norm(v - t.ghost[gk]).isconst() and
                                       t.cs.norm(v - t.ghost[gk]).c % (1 << (8 * sz)) == 0)
            s.e.oblige(t, ok, ('C25',), 'statistic %s is %r, executed work is %r' % (
                nm, t.cs.norm(v), t.cs.norm(t.ghost[gk])), fn=f, rule='stats')
