"""The command-line tool: which files are opened how, and what the exit status claims."""
from engine import *
from units import Unit, RS, I31

ENOENT = 2
O_ACCMODE, O_CREAT, O_EXCL, O_TRUNC = 3, 0o100, 0o200, 0o1000
ARG_NONE, ARG_STRING, ARG_INT = 0, 1, 2
# operation: (function, which positional argument (1 = first after the action) each FILE parameter comes from)
OPS = {'rs_sig_file': {0: (1, 'r'), 1: (2, 'w')}, 'rs_loadsig_file': {0: (1, 'r')},
       'rs_delta_file': {1: (2, 'r'), 2: (3, 'w')}, 'rs_patch_file': {0: (1, 'r'), 1: (2, 'r'), 2: (3, 'w')}}
DESTROY = ('remove', 'unlink', 'rename', 'truncate', 'ftruncate', 'unlinkat', 'renameat', 'creat', 'rmdir', 'link',
           'symlink', 'mkstemp', 'system', 'popen', 'execve', 'execvp', 'execl', 'posix_spawn', 'fork')
OPENERS = DESTROY + ('fopen', 'freopen', 'fopen64', 'open', 'open64', 'openat')


class Rdiff(Unit):
    name = 'rdiff'
    tags = ()

    def start(s):
        e = s.e
        e.default_tags = ()
        e.rank_tags = None
        for k in list(e.tagmap):
            e.tagmap[k] = ()
        e.max_states = 60000
        s.libfiles()
        e.on_exit = s.exit
        M = e.models
        M['poptGetContext'] = s.popt
        M['poptGetNextOpt'] = s.nextopt
        M['poptGetArg'] = s.arg
        M['poptPeekArg'] = s.peek
        M['poptFreeContext'] = s.nothing
        M['poptGetOptArg'] = s.optarg
        for k in ('fopen', 'fopen64'):
            M[k] = s.fopen
        M['freopen'] = s.freopen
        for k in ('open', 'open64'):
            M[k] = s.open
        M['fdopen'] = s.fdopen
        for k in ('access', 'stat', 'lstat', 'stat64', 'lstat64'):
            M[k] = s.probe
        for k in ('fclose', 'fflush'):
            M[k] = s.close
        for k in DESTROY:
            M[k] = s.destroy
        e.iohook = s.io
        S = e.summaries
        if 'isprefix' in {f.src for f in s.m.funcs.values()}:
            S['isprefix'] = lambda e, st, a, ins, f: [(st, SYM.sym('isprefix', 0, 1))]
        for o in OPS:
            s.fn(o)
            S[o] = s.op
        S['rs_build_hash_table'] = s.hash
        for k in ('rs_log_stats', 'rs_signature_log_stats', 'rs_free_sumset', 'rs_trace_set_level', 'rs_strerror',
                  'rs_supports_trace'):
            S[k] = s.lib
        s.opened = s.succ = s.ops = 0
        s.fn('main')
        st = State()
        st.ghost.update(FORCE=L(0), argn=L(0), optend=L(0))
        # the program starts with its initialised variables
        for g in s.m.globals.values():
            if g['ext'] or g['const'] or g['init'] is None:
                continue
            p = e.region_of_global(st, g['name'])
            if isinstance(p, Ptr):
                r = st.w(p.r)
                r.cells = e.flatten(g)
                r.default = 'zero'
        for k in ('stdin', 'stdout', 'stderr'):
            if k in s.m.globals:
                p = e.region_of_global(st, k)
                st.mem['FILE:' + k] = Region('FILE:' + k, 'file', L(216), k, default='lazy', const=True)
                st.w(p.r).cells[0] = (8, Ptr('FILE:' + k, L(0)))
        av = s.reg(st, 'buf', SYM.sym('argv', 8, 1 << 30), 'argv', default='lazy', structured=True)
        f = s.fn('main')
        for t, v in s.run(f, [SYM.sym('argc', 1, I31), Ptr(av, L(0))], st):
            s.resolve(t, lambda w: s.status(w, v, f=f))
        if not s.ops or not s.opened:
            raise AnalysisError('rdiff runs no operation or opens no file')
        if not s.succ:
            raise AnalysisError('rdiff never succeeds')

    def libfiles(s):
        """the library operations open no file by name"""
        seen, work = set(), [s.fn(o).name for o in OPS]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            f = s.m.funcs[n]
            if f.decl:
                continue
            for i in f.ins():
                for x in i.a if i.op != 'phi' else [y[0] for y in i.a]:
                    x = x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x
                    if isinstance(x, tuple) and x and x[0] == 'g' and x[1] in s.m.funcs:
                        work.append(x[1])
                if i.op == 'call' and i.x[0] == 'g':
                    work.append(i.x[1])
                    s.ob(State(), i.x[1] not in OPENERS, 'C23', 'the library operation can reach %s(), which opens or changes '
                         'files by name behind the back of rdiff' % i.x[1], ins=i, rule='open')

    # ---- options and arguments
    def popt(s, e, st, a, ins, f):
        p = a[3]
        if not isinstance(p, Ptr) or p.r is None:
            raise AnalysisError('options table not resolved')
        d = s.m.struct_di('poptOption')
        if d is None:
            raise AnalysisError('struct poptOption has no debug information')
        w = s.m.struct_size('poptOption')
        o = st.cs.norm(p.o)
        sz = st.mem[p.r].size
        if not (o.isconst() and sz is not None and sz.isconst()):
            raise AnalysisError('options table of unknown size')
        s.vals = set()
        s.forceval = None
        have = False

        def ld(off, nm):
            fo, fs, _ = d[nm]
            v = e.load(st, Ptr(p.r, L(off + fo)), PTR if fs == 8 else INT(8 * fs))
            if isinstance(v, tuple):
                v = e.deref_const(st, v)
            if isinstance(v, L):
                v = st.cs.norm(v)
                if fs == 8 and v == 0:
                    v = NULL
            return v
        for off in range(o.c, sz.c - w + 1, w):
            long, short, info, arg, val = (ld(off, k) for k in ('longName', 'shortName', 'argInfo', 'arg', 'val'))
            nm = None
            if not isnull(long):
                q = s.cstr(st, long)
                nm = q.decode('latin1') if q is not None else None
                if nm is None:
                    raise AnalysisError('name of an option not resolved')
            if isnull(long) and isinstance(short, L) and short == 0 and isnull(arg):
                break
            if not isinstance(info, L) or not info.isconst() or not isinstance(val, L) or not val.isconst():
                raise AnalysisError('option table not resolved: %r %r %r %r' % (nm, info, arg, val))
            kind = info.c & 0xff
            force = nm == 'force'
            if isnull(arg):
                s.vals.add(val.c)
                if force:
                    have = True
                    s.forceval = val.c
                continue
            if not isinstance(arg, Ptr):
                raise AnalysisError('argument of option %s not resolved' % nm)
            if kind == ARG_NONE:
                v = SYM.sym('opt_' + (nm or '?'), 0, 1)
                if force:
                    have = True
                    st.ghost['FORCE'] = v
                e.store(st, arg, 4, v, ins)
            elif kind == ARG_INT:
                e.store(st, arg, 4, SYM.sym('opt_' + (nm or '?'), 0, (1 << 32) - 1), ins)
            elif kind == ARG_STRING:
                e.store(st, arg, 8, Opaque('opt_' + (nm or '?')), ins)
            else:
                raise AnalysisError('option type %d not modelled' % kind)
        if not have:
            raise AnalysisError('rdiff has no option "force"')
        return [(st, Opaque('popt'))]

    def nextopt(s, e, st, a, ins, f):
        t = st.copy()
        t.ghost['optend'] = L(1)
        out = [(t, L(-1))]
        if s.forceval is not None:
            u = st.copy()
            u.ghost['FORCE'] = L(1)
            out.append((u, L(s.forceval)))
        r = SYM.sym('opt', -I31 - 1, I31)
        for u, k in s.split(st, r, [-1] + ([s.forceval] if s.forceval is not None else [])):
            if k is None:
                out.append((u, r))
        return out

    def optarg(s, e, st, a, ins, f):
        return [(st, Opaque('optarg'))]

    def nothing(s, e, st, a, ins, f):
        return [(st, NULL)]

    def arg(s, e, st, a, ins, f):
        n = st.cs.norm(st.ghost['argn'])
        if not n.isconst():
            raise AnalysisError('unbounded number of arguments read')
        st.ghost['argn'] = n + 1
        key = 'ARG%d' % n.c
        out = []
        last = any(x[0] == 'argend' for x in st.events())
        if last:
            return [(st, NULL)]
        t = st.copy()
        t.event('argend')
        out.append((t, NULL))
        st.mem[key] = Region(key, 'buf', SYM.sym('len', 1, 1 << 20), 'argument %d' % n.c, default='lazy', const=True)
        out.append((st, Ptr(key, L(0))))
        return out

    def peek(s, e, st, a, ins, f):
        if any(x[0] == 'argend' for x in st.events()):
            return [(st, NULL)]
        raise AnalysisError('poptPeekArg not modelled')

    # ---- files
    def name(s, p):
        return p.r if isinstance(p, Ptr) and p.r is not None and p.r.startswith('ARG') else None

    def fail(s, e, st, what, nm):
        q = SYM.sym('errno', 1, 4095)
        if 'errno' not in st.mem:
            st.mem['errno'] = Region('errno', 'errno', L(4), 'errno', default='lazy', structured=True)
        st.w('errno').cells[0] = (4, q)
        st.event('nofile', nm, q)

    def may_write(s, st, nm, ins, how):
        ok = st.cs.prove(st.ghost['FORCE'] - 1)
        if not ok and nm is not None:
            for x in st.events():
                if x[0] == 'nofile' and x[1] == nm and st.cs.prove_eq(x[2], L(ENOENT)):
                    ok = True
        s.opened += 1
        s.ob(st, ok, 'C23', '%s may overwrite an existing file although forcing was not requested' % how, ins=ins, rule='force')

    def file(s, st, nm, mode, std=None):
        k = 'FILE:%s:%s:%d' % (nm, mode, len(st.events()))
        st.mem[k] = Region(k, 'file', L(216), k, default='lazy', const=True)
        st.event('opened', k, nm, mode)
        return Ptr(k, L(0))

    def mode(s, e, st, p, ins):
        m = s.cstr(st, p)
        if m is None:
            raise AnalysisError('file mode not resolved at %s:%d' % (ins.fn.src, ins.line))
        return m.decode('latin1')

    def fopen(s, e, st, a, ins, f):
        nm = s.name(a[0])
        m = s.mode(e, st, a[1], ins)
        s.opened += 1
        w = m[:1] != 'r' or '+' in m
        s.ob(st, nm is not None, 'C23', 'opens a file that was not named on the command line', ins=ins, rule='open')
        if w:
            s.outonly(st, nm, ins)
            if 'x' not in m:
                s.may_write(st, nm, ins, 'fopen(.., "%s")' % m)
        t = st.copy()
        s.fail(e, t, 'fopen', nm)
        return [(t, NULL), (st, s.file(st, nm, 'w' if w else 'r'))]

    def outonly(s, st, nm, ins):
        # positional arguments: 0 = action; the output is the last one an operation takes
        s.ob(st, nm in ('ARG2', 'ARG3'), 'C23', 'opens an input file for writing', ins=ins, rule='open')
        st.event('wopen', nm)

    def freopen(s, e, st, a, ins, f):
        nm = s.name(a[0])
        m = s.mode(e, st, a[1], ins)
        w = m[:1] != 'r' or '+' in m
        if w:
            s.outonly(st, nm, ins)
            s.may_write(st, nm, ins, 'freopen')
        t = st.copy()
        s.fail(e, t, 'freopen', nm)
        if isinstance(a[2], Ptr) and a[2].r is not None:
            st.event('opened', a[2].r, nm, 'w' if w else 'r')
        return [(t, NULL), (st, a[2])]

    def open(s, e, st, a, ins, f):
        nm = s.name(a[0])
        fl = st.cs.norm(a[1])
        if not fl.isconst():
            raise AnalysisError('open flags not resolved')
        w = (fl.c & O_ACCMODE) != 0 or fl.c & O_TRUNC
        if w:
            s.outonly(st, nm, ins)
            if fl.c & (O_CREAT | O_EXCL) != (O_CREAT | O_EXCL):
                s.may_write(st, nm, ins, 'open')
        t = st.copy()
        s.fail(e, t, 'open', nm)
        fd = SYM.sym('fd', 3, I31)
        st.event('fd', fd, nm, 'w' if w else 'r')
        return [(t, L(-1)), (st, fd)]

    def fdopen(s, e, st, a, ins, f):
        for x in reversed(st.events()):
            if x[0] == 'fd' and st.cs.prove_eq(x[1], st.cs.norm(a[0])):
                return [(st.copy(), NULL), (st, s.file(st, x[2], x[3]))]
        raise AnalysisError('fdopen of an unknown descriptor')

    def probe(s, e, st, a, ins, f):
        nm = s.name(a[0])
        t = st.copy()
        s.fail(e, t, f.name, nm)
        if isinstance(a[1], Ptr) and a[1].r is not None:
            w = st.w(a[1].r)
            w.cells = {}
            w.segs = ()
            w.default = 'lazy'
        return [(t, L(-1)), (st, L(0))]

    def destroy(s, e, st, a, ins, f):
        s.may_write(st, None, ins, f.name + '()')
        return [(st, e.fresh_for(f.ret, f.name))]

    def close(s, e, st, a, ins, f):
        p = a[0]
        r = SYM.sym(f.name, -1, 0)
        st.event(f.name, p.r if isinstance(p, Ptr) else None, r)
        return [(st, r)]

    def io(s, e, st, what, a, r, ins):
        if what in ('fwrite', 'fputs', 'fputc', 'fprintf', 'vfprintf'):
            p = a[1] if what in ('fputs', 'fputc') else a[0] if what != 'fwrite' else a[3]
            s.ob(st, isinstance(p, Ptr) and p.r == 'FILE:stderr', 'C23', 'rdiff itself writes into a file or the output stream '
                 'of an operation', ins=ins, rule='write') if any(x[0] == 'op' for x in st.events()) else None
            return [(st, r)]
        if what in ('printf', 'puts', 'putchar'):
            if any(x[0] == 'op' for x in st.events()):
                s.ob(st, False, 'C23', 'rdiff prints into the standard output, where the result of the operation may go',
                     ins=ins, rule='write')
            return [(st, r)]
        return None

    # ---- operations
    def op(s, e, st, a, ins, f):
        s.ops += 1
        for k, (argn, mode) in OPS[f.src].items():
            p = a[k]
            ok = isinstance(p, Ptr) and p.r is not None
            if ok:
                op = [x for x in st.events() if x[0] == 'opened' and x[1] == p.r]
                if op:
                    ok = op[-1][2] == 'ARG%d' % argn and op[-1][3] == mode
                else:
                    ok = p.r == ('FILE:stdin' if mode == 'r' else 'FILE:stdout')
                if any(x[0] == 'fclose' and x[1] == p.r for x in st.events()):
                    ok = False
            s.ob(st, ok, 'C23', '%s is not given the %s file of positional argument %d' % (
                f.src, 'input' if mode == 'r' else 'output', argn), ins=ins, rule='roles')
        out = a[max(OPS[f.src])] if f.src != 'rs_loadsig_file' else None
        r = SYM.sym('op_result', 1, 255)
        t = st.copy()
        t.event('op', f.src, r, out.r if isinstance(out, Ptr) else None)
        st.event('op', f.src, L(0), out.r if isinstance(out, Ptr) else None)
        if f.src == 'rs_loadsig_file' and isinstance(a[1], Ptr):
            q = s.reg(st, 'heap', L(s.m.struct_size('rs_signature')), 'signature', default='lazy', structured=True)
            e.store(st, a[1], 8, Ptr(q, L(0)), ins)
            st.event('sumset', q)
        if f.src == 'rs_delta_file':
            ok = any(x[0] == 'sumset' and isinstance(a[0], Ptr) and a[0].r == x[1] for x in st.events())
            s.ob(st, ok, 'C23', 'delta made without the signature that was loaded', ins=ins, rule='roles')
            t.event('deltaed')
            st.event('deltaed')
        return [(t, r), (st, L(0))]

    def hash(s, e, st, a, ins, f):
        r = SYM.sym('op_result', 1, 255)
        t = st.copy()
        t.event('op', f.src, r, None)
        st.event('op', f.src, L(0), None)
        return [(t, r), (st, L(0))]

    def lib(s, e, st, a, ins, f):
        if f.ret.k == 'void':
            return [(st, None)]
        return [(st, Opaque(f.src) if f.ret.k == 'ptr' else SYM.sym(f.src, -I31 - 1, I31))]

    # ---- exit status
    def exit(s, e, st, name, a, ins):
        if name in ('abort', '__assert_fail'):
            return
        if name == '_exit':
            s.ob(st, not any(x[0] == 'op' for x in st.events()), 'C23', 'leaves without flushing its output', ins=ins, rule='status')
        s.resolve(st, lambda w: s.status(w, a[0], ins=ins))

    def status(s, w, v, f=None, ins=None):
        e = s.e
        v = e.to_u(w, v, 32)
        _, low = e.divmod(w, v, 256)
        if not e.decide_eq(w, low):
            return
        ev = w.events()
        n = w.cs.norm(w.ghost['argn'])
        if n == 0:
            return       # help, version: no operation asked for
        msg = 'exit status 0 although '
        ops = [x for x in ev if x[0] == 'op']
        bad = [x[1] for x in ops if not w.cs.prove_eq(x[2], L(0))]
        s.ob(w, not bad, 'C23', msg + '%s failed' % ', '.join(bad), f, ins, 'status')
        names = [x[1] for x in ops]
        done = [x for x in ops if x[3] is not None]
        s.ob(w, len(done) == 1, 'C23', msg + 'no operation was carried out', f, ins, 'status')
        if len(done) != 1:
            return
        s.succ += 1
        k = max(i for i, x in enumerate(ev) if x[0] == 'op' and x[3] is not None)
        fl = False
        lost = False
        for x in ev[k + 1:]:
            if x[0] in ('fclose', 'fflush') and (x[1] == done[0][3] or x[1] is None):
                ok = w.cs.prove_eq(x[2], L(0))
                if ok:
                    fl = True
                elif not fl:
                    lost = True
                elif x[0] == 'fclose':
                    lost = True
        s.ob(w, fl and not lost, 'C23', msg + 'writing out the remaining buffered output was not checked or failed', f, ins,
             'status')
