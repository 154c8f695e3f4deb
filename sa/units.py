"""Unit analyses: single entry points interpreted abstractly for every argument, environment
response (short reads, failures, refused memory) and buffer geometry."""
from engine import *

RS = {}
I31 = (1 << 31) - 1


class Stop(Exception):
    pass


class Unit:
    name = 'unit'
    tags = ()
    verbose = False

    def __init__(s, eng):
        s.e = eng
        s.m = eng.m
        s.nodes = {}
        s.outcomes = {}
        s.G = {}
        s.steps = 0
        RS.clear()
        RS.update(s.m.enum('rs_result'))
        for k in ('RS_DONE', 'RS_BLOCKED', 'RS_RUNNING', 'RS_IO_ERROR', 'RS_INPUT_ENDED', 'RS_PARAM_ERROR', 'RS_BAD_MAGIC',
                  'RS_MEM_ERROR', 'RS_CORRUPT', 'RS_INTERNAL_ERROR'):
            if k not in RS:
                raise AnalysisError('result code %s not defined' % k)
        for k in ('in', 'out', 'scoop', 'constwrite', 'job', 'stack', 'heap', 'null', 'freed', 'overlap', 'badfree', 'global',
                  'stream', 'buf', 'file'):
            eng.tagmap[k] = s.tags
        eng.default_tags = s.tags
        eng.tagmap['freed'] = ('C19',) + s.tags
        eng.tagmap['badfree'] = ('C19',) + s.tags

    def fn(s, name):
        f = s.m.fn(name)
        if f is None:
            raise AnalysisError('function %s not found' % name)
        return f

    def ob(s, st, cond, tags, msg, fn=None, ins=None, rule=''):
        if isinstance(tags, str):
            tags = (tags,)
        return s.e.oblige(st, bool(cond), tags, msg, ins, fn, rule or s.name)

    def run(s, fname, args, st=None):
        f = s.fn(fname) if isinstance(fname, str) else fname
        st = st or State()
        out = []
        for t, v in s.e.call(st, f, list(args)):
            if t.dead or t.cs.dead or not t.cs.feasible():
                continue
            if not s.e.mute:
                s.nodes[f.src] = s.nodes.get(f.src, 0) + 1
            out.append((t, v))
        return out

    def reg(s, st, kind, size, name, **kw):
        return s.e.new_region(st, kind, size, name, **kw)

    def put(s, st, rid, off, size, v):
        st.w(rid).cells[off] = (size, v)

    def field(s, struct, nm):
        d = s.m.struct_di(struct)
        if d is None or nm not in d:
            raise AnalysisError('struct %s has no field %s' % (struct, nm))
        return d[nm]

    def setf(s, st, rid, struct, nm, v):
        o, sz, _ = s.field(struct, nm)
        s.put(st, rid, o, sz, v)

    def getf(s, st, rid, struct, nm, ptr=False):
        o, sz, _ = s.field(struct, nm)
        v = s.e.load_raw(st, st.mem[rid], L(o), sz, PTR if ptr else INT(8 * sz))
        if isinstance(v, tuple):
            v = s.e.deref_const(st, v)
        if isinstance(v, L) and not ptr:
            v = st.cs.norm(v)
        if ptr and isinstance(v, L):
            v = NULL if v == 0 else v
        return v

    def s32(s, st, v):
        return s.e.to_s(st, v, 32) if isinstance(v, L) else v

    def split(s, st, v, vals):
        """partition st on v in vals; yields (state, value or None)"""
        out = []
        rest = st
        for k in vals:
            a = rest.copy()
            a.cs.add_eq0(v - k)
            if not a.cs.dead and a.cs.feasible():
                out.append((a, k))
        # complement intervals
        ks = sorted(vals)
        lo = None
        for k in ks + [None]:
            a = rest.copy()
            if lo is not None:
                a.cs.add_ge0(v - lo - 1)
            if k is not None:
                a.cs.add_ge0(L(k - 1) - v)
            if not a.cs.dead and a.cs.feasible():
                out.append((a, None))
            lo = k
        return out

    def resolve(s, st, fn):
        """run fn(st) splitting the state wherever the domain asks for a case distinction"""
        work = [st]
        out = []
        n = 0
        while work:
            u = work.pop()
            n += 1
            if n > 2000:
                raise AnalysisError('case explosion in %s' % s.name)
            save = (len(s.e.violations), set(s.e.vkeys), dict(s.e.bt))
            try:
                w = u.copy()
                r = fn(w)
                out.append((w, r))
            except Fork as f:
                del s.e.violations[save[0]:]
                s.e.vkeys = save[1]
                s.e.bt = save[2]
                work += s.e.fork(u, f, None)
        return out

    def cstr(s, st, p):
        """bytes of a constant string, or None"""
        if not isinstance(p, Ptr) or p.r is None or p.r not in st.mem:
            return None
        r = st.mem[p.r]
        o = st.cs.norm(p.o)
        if r.kind != 'global' or not o.isconst():
            return None
        out = bytearray()
        k = o.c
        n = r.size.c if r.size is not None and r.size.isconst() else 0
        while k < n:
            c = r.cells.get(k)
            if c is None:
                return bytes(out)
            if c[0] != 1 or not isinstance(c[1], L):
                return None
            out.append(c[1].c & 255)
            k += 1
        return bytes(out)


# ---------------------------------------------------------------------------------- C26
class Messages(Unit):
    """result descriptions and log formatting"""
    name = 'messages'
    tags = ('C26',)
    SEV = {0: b'EMERGENCY! ', 1: b'ALERT! ', 2: b'CRITICAL! ', 3: b'ERROR: ', 4: b'Warning: ', 5: b'', 6: b'', 7: b''}

    def start(s):
        s.strerror()
        s.log()

    def strerror(s):
        e = s.e
        f = s.fn('rs_strerror')
        got = {}

        def text(t, v, what):
            b = s.cstr(t, v)
            s.ob(t, b is not None and len(b) > 0, 'C26', 'no constant description for %s' % what, f)
            return b
        known = sorted(set(RS.values()))
        generic = set()
        probes = [known[0] - 1, known[-1] + 1] + [k + 1 for k in known if k + 1 not in known]
        for nm, k in RS.items():
            for t, v in s.run(f, [L(k)]):
                got.setdefault(nm, set()).add(text(t, v, nm))
        # all other codes: symbolic, one open interval at a time
        lo = -(1 << 31)
        for k in known + [1 << 31]:
            if k - 1 >= lo:
                st = State()
                x = SYM.sym('code', lo, k - 1)
                for t, v in s.run(f, [x], st):
                    generic.add(text(t, v, 'unknown codes'))
            lo = k + 1
        s.ob(None, len(generic) == 1, 'C26', 'unknown result codes do not all get the same generic text', f)
        for nm, ts in sorted(got.items()):
            s.ob(None, len(ts) == 1 and not ts & generic, 'C26', '%s has no description of its own (%r)' % (
                nm, sorted(ts, key=repr)), f, rule='description')
            for n2, t2 in got.items():
                if n2 > nm and RS[n2] != RS[nm]:
                    s.ob(None, not (ts & t2), 'C26', '%s and %s have the same description' % (nm, n2), f, rule='description')

    def log(s):
        e = s.e
        f = s.fn('rs_log0')
        for k in ('rs_log0', 'rs_log0_nofn'):
            e.summaries.pop(k, None)
        snp = e.models['snprintf']

        def rec(eng, st, a, ins, g):
            st.event('text', [x for x in a[2:]], a[0], st.cs.norm(eng.to_u(st, a[1], 64)))
            return snp(eng, st, a, ins, g)
        e.models['snprintf'] = rec
        e.models['vsnprintf'] = rec

        def cat(eng, st, a, ins, g):
            st.event('text', [a[1]], a[0], None)
            return [(st, a[0])]
        for nm in ('strcpy', 'strncpy', 'strcat', 'strncat'):
            e.models[nm] = cat
        tl = SYM.sym('configured_level', -(1 << 31), I31)
        CB = Opaque('log callback')
        FN = Opaque('function name')
        FMT = Opaque('format')
        cur = {}

        def cb(eng, st, callee, args, ins):
            if callee is not CB and not (isinstance(callee, Opaque) and cur['default']):
                return None
            fl = cur['flags']
            lv = st.cs.norm(args[0]) if isinstance(args[0], L) else None
            ok = lv is not None and eng.decide_eq(st, eng.to_u(st, lv, 32) - (fl & 7))
            s.ob(st, ok, 'C26', 'callback gets another severity than the message has', ins=ins, rule='log')
            s.ob(st, st.cs.prove(tl - (fl & 7)), 'C26', 'a message less severe than the configured level is passed on', ins=ins,
                 rule='log')
            texts = []
            buf = args[1]
            for ev in st.events():
                if ev[0] == 'text':
                    for x in ev[1]:
                        b = s.cstr(st, x)
                        if b is not None:
                            texts.append(b)
            want = s.SEV[fl & 7]
            s.ob(st, (not want or any(want in b for b in texts)) and
                 not any(p in b for k, p in s.SEV.items() if p and p != want for b in texts), 'C26',
                 'message of severity %d does not carry the prefix of its severity' % (fl & 7), ins=ins, rule='log')
            good = isinstance(buf, Ptr) and any(ev[0] == 'text' and isinstance(ev[2], Ptr) and ev[2].r == buf.r and
                                                (ev[3] is None or st.cs.prove(ev[3] - 1)) for ev in st.events())
            s.ob(st, good, 'C26', 'the text passed to the callback is not the one formatted for it', ins=ins, rule='log')
            st.ghost['called'] = st.ghost.get('called', 0) + 1
            return [(st, None)]
        e.callback = cb
        for fl in range(16):
            for dflt in (False, True):
                st0 = State()
                cur.update(flags=fl, default=dflt)
                for t, _ in s.run('rs_trace_set_level', [tl], st0):
                    if dflt:
                        # destination left alone: unknown pointer, maybe null
                        rounds = [(t, None)]
                    else:
                        rounds = s.run('rs_trace_to', [CB], t)
                    for u, _ in rounds:
                        if not dflt:
                            # the callback was set: not null
                            KEEP.append(CB)
                            x = SYM.term(('isnull', id(CB)), 'peq', 0, 1)
                            u.cs.add_eq0(x)
                        for w, _ in s.run(f, [L(fl), FN, FMT], u):
                            n = w.ghost.get('called', 0)
                            s.ob(w, n <= 1, 'C26', 'a message is passed on twice', f, rule='log')
                            if n == 0 and not dflt:
                                s.ob(w, w.cs.prove(L((fl & 7) - 1) - tl), 'C26', 'a message at least as severe as the '
                                     'configured level is not passed on', f, rule='log')
        # the destination in force before any call writes the text to stderr
        g = [(n, d) for n, d in s.m.globals.items() if d['init'] is not None and d['init'][0] == 'g' and not d['const'] and
             d['init'][1] in s.m.funcs]
        if not g:
            raise AnalysisError('no default log destination found')
        for n, d in g:
            h = s.m.funcs[d['init'][1]]
            if h.decl or len(h.params) != 2:
                continue
            st = State()
            MSG = Opaque('message')
            for t, _ in s.run(h, [SYM.sym('lv', 0, 7), MSG], st):
                evs = [x for x in t.events() if x[0] in ('fputs', 'fprintf', 'fwrite')]
                s.ob(t, any(MSG in x[1] for x in evs), 'C26', 'default log destination drops the message', h, rule='log')


# ---------------------------------------------------------------------------------- C27
class Format(Unit):
    """statistics text and hex encoding"""
    name = 'format'
    tags = ('C27',)

    def start(s):
        s.stats()
        s.hexify()
        s.dump()

    def dump(s):
        """the diagnostic dumps of a signature, for every strong sum length and number of blocks"""
        e = s.e
        T = 'rs_signature'
        f = s.fn('rs_sumset_dump')
        e.summaries['rs_hexify'] = s.hexed
        w = s.field('rs_block_sig', 'strong_sum')[0]
        for n in range(1, 33):
            st = State()
            cnt = SYM.sym('count', 0, I31)
            stride = w + ((n + 3) & ~3)
            bs = s.reg(st, 'blocks', cnt.scale(stride), 'block sums', const=True)
            sg = s.reg(st, 'sig', s.m.struct_size(T), 'signature', default='lazy', structured=True, const=True)
            s.setf(st, sg, T, 'count', cnt)
            s.setf(st, sg, T, 'size', cnt)
            s.setf(st, sg, T, 'strong_sum_len', L(n))
            s.setf(st, sg, T, 'block_sigs', Ptr(bs, L(0)))
            s.run(f, [Ptr(sg, L(0))], st)
        del e.summaries['rs_hexify']

    def hexed(s, e, st, a, ins, f):
        """rs_hexify as decided by hexify(): 2n+1 bytes written, n read"""
        n = e.to_u(st, a[2], 32)
        k = st.cs.norm(n.scale(2) + 1)
        if e.check_access(st, a[0], k, True, ins):
            e.write_content(st, a[0].r, a[0].o, [(k, ('unk',))], k)
        if st.dead or not e.check_access(st, a[1], n, False, ins) and st.dead:
            return []
        return [(st, None)]

    def stats(s):
        e = s.e
        f = s.fn('rs_format_stats')
        e.models['snprintf'] = s.snp
        for nullop in (0, 1):
            st = State()
            n = SYM.sym('size', 0, 1 << 40)
            buf = s.reg(st, 'buf', n, "caller's buffer")
            sr = s.reg(st, 'stats', s.m.struct_size('rs_stats'), 'stats', default='lazy', structured=True, const=True)
            if nullop:
                s.setf(st, sr, 'rs_stats', 'op', NULL)
            for t, v in s.run(f, [Ptr(sr, L(0)), Ptr(buf, L(0)), n], st):
                s.ob(t, isinstance(v, Ptr) and v.r == buf and t.cs.prove_eq(v.o, L(0)), 'C27',
                     'does not return the buffer it was given', f)

                def chk(w):
                    pos = L(0)
                    fits = True
                    k = 0
                    for ev in w.events():
                        if ev[0] != 'snprintf' or not isinstance(ev[1], Ptr) or ev[1].r != buf:
                            continue
                        k += 1
                        if not w.cs.prove(n - 1):
                            if e.decide(w, n - 1) is False:
                                return
                        if fits:
                            s.ob(w, w.cs.prove_eq(ev[1].o, pos), 'C27', 'a piece of the text does not follow the one before it',
                                 f, rule='append')
                            pos = pos + ev[3]
                            fits = e.decide(w, n - 1 - pos)
                        else:
                            s.ob(w, w.cs.prove_eq(ev[1].o, n - 1) or w.cs.prove(-ev[2]), 'C27',
                                 'text written over the truncated text', f, rule='append')
                    s.ob(w, k >= 1, 'C27', 'nothing is written', f)
                s.resolve(t, chk)
        st = s.statst()
        s.run('rs_log_stats', [Ptr(s.sr, L(0))], st)

    def snp(s, eng, st, a, ins, f):
        """snprintf of one piece: the text it wants to write is shorter than 1 MiB"""
        n = eng.to_u(st, a[1], 64)
        if not eng.check_access(st, a[0], n, True, ins) and st.dead:
            return []
        r = SYM.sym('snprintf', 0, 1 << 20)
        st.event('snprintf', a[0], st.cs.norm(n), r)
        return [(st, r)]

    def statst(s):
        st = State()
        s.sr = s.reg(st, 'stats', s.m.struct_size('rs_stats'), 'stats', default='lazy', structured=True, const=True)
        return st

    def hexify(s):
        e = s.e
        f = s.fn('rs_hexify')
        for case in ('pos', 'neg'):
            st = State()
            n = SYM.sym('from_len', 1, I31 >> 1) if case == 'pos' else SYM.sym('from_len', -I31 - 1, 0)
            cnt = n if case == 'pos' else L(0)
            src = s.reg(st, 'buf', cnt, 'bytes to encode', const=True)
            st.mem[src].segs = ((L(0), cnt, ('str', 'HEX', L(0))),)
            dst = s.reg(st, 'buf', cnt.scale(2) + 1, 'hex text')
            st.ghost['hx'] = L(0)

            def hook(st2, p, size, v, ins):
                if p.r != dst:
                    return
                g = st2.ghost['hx']
                o = st2.cs.norm(p.o)
                s.ob(st2, size == 1 and isinstance(v, L), 'C27', 'hex text is not written byte by byte', ins=ins, rule='hex')
                if size != 1 or not isinstance(v, L):
                    return
                # index of the encoded byte
                q, r = e.divmod(st2, o, 2)
                r = st2.cs.norm(r)
                if not r.isconst():
                    r = L(0) if e.decide_eq(st2, r) else L(1)
                v = e.to_u(st2, v, 8)
                if st2.cs.prove_eq(o, cnt.scale(2)):
                    s.ob(st2, st2.cs.prove_eq(v, L(0)) and st2.cs.prove_eq(g, cnt.scale(2)), 'C27', 'terminator missing or '
                         'written before all bytes are encoded', ins=ins, rule='hex')
                    st2.ghost['hx'] = g + 1
                    return
                b = e.byte(st2, 'HEX', q)
                hi, lo = e.divmod(st2, b, 16)
                nib = hi if r == 0 else lo
                if e.decide(st2, L(9) - nib):
                    ok = st2.cs.prove_eq(v, nib + 48)
                else:
                    ok = st2.cs.prove_eq(v, nib + 87)
                s.ob(st2, ok, 'C27', 'wrong hex digit', ins=ins, rule='hex')
                s.ob(st2, st2.cs.prove(o - g + 1) and st2.cs.prove(g + 1 - o), 'C27', 'hex digits written out of step with the '
                     'bytes', ins=ins, rule='hex')
                st2.ghost['hx'] = g + 1
            e.store_hook = hook
            for t, v in s.run(f, [Ptr(dst, L(0)), Ptr(src, L(0)), n], st):
                s.ob(t, t.cs.prove_eq(t.ghost['hx'], cnt.scale(2) + 1), 'C27', 'not every byte gives two digits and a '
                     'terminator', f, rule='hex')
            e.store_hook = None
