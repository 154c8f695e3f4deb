"""Structural dataflow rules over the IR of the whole library (no path exploration)."""
from engine import *

CLI = ('rdiff.c', 'isprefix.c')
ALLOC = {'malloc', 'calloc', 'realloc', 'reallocarray', 'aligned_alloc'}
TERMINATE = {'exit', '_exit', '_Exit', 'abort', 'quick_exit', '__assert_fail', '__assert', 'raise', 'kill', 'longjmp',
             'siglongjmp', 'pthread_exit', 'llvm.trap', 'llvm.debugtrap', 'err', 'errx', 'verr', 'verrx', 'error',
             '__assert_perror_fail', '__fortify_fail', '__chk_fail', 'pthread_kill', 'execve', 'execl', 'execv', 'execvp',
             '_longjmp', 'killpg', 'thrd_exit', 'tgkill'}
STDOUT = {'printf', 'vprintf', 'puts', 'putchar', 'putchar_unlocked', 'perror', 'psignal', 'warn', 'warnx', 'vwarn', 'vwarnx',
          '__printf_chk', '__vprintf_chk', 'syslog', 'vsyslog', 'wprintf', 'getchar', 'gets', 'scanf', 'err', 'errx', 'error',
          '__overflow'}
FDOUT = {'write', 'dprintf', 'vdprintf', 'writev', 'pwrite', 'read', 'send'}
HIDDEN = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'localtime', 'gmtime',
          'ctime', 'asctime', 'setlocale', 'umask', 'setenv', 'putenv', 'unsetenv', 'clearenv', 'tmpnam', 'mktemp', 'chdir',
          'fchdir', 'signal', 'sigaction', 'alarm', 'setitimer', 'getopt', 'getopt_long', 'readdir', 'getpwnam', 'getpwuid',
          'getgrnam', 'getgrgid', 'inet_ntoa', 'gethostbyname', 'hcreate', 'hsearch', 'hdestroy', 'ecvt', 'fcvt', 'l64a',
          'lgamma', 'nl_langinfo', 'ptsname', 'ttyname', 'strsignal', 'setrlimit', 'mallopt', 'atexit', 'setuid', 'setgid',
          'mblen', 'mbtowc', 'wctomb', 'basename', 'dirname', 'crypt', 'encrypt', 'setkey', 'getlogin', 'initstate', 'setstate',
          'tzset', 'strerror'}
LOGFN = ('rs_log0', 'rs_log0_nofn')
# argument positions of externals that are written through
WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strncpy': (0,), 'strcat': (0,), 'strncat': (0,),
          'sprintf': (0,), 'snprintf': (0,), 'vsnprintf': (0,), 'vsprintf': (0,), 'fread': (0,), 'fgets': (0,), 'llvm.memcpy':
          (0,), 'llvm.memmove': (0,), 'llvm.memset': (0,), 'bzero': (0,), 'read': (1,), 'time': (0,), 'fstat': (1,), 'stat': (1,)}
READS = {'memcmp', 'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'memchr', 'fwrite', 'fputs', 'fopen', 'fputc', 'fclose',
         'puts', 'printf', 'fprintf', 'vfprintf', 'fflush', 'feof', 'ferror', 'fseeko', 'fseek', 'fileno', 'free', 'strerror'}


def base(n):
    """name of an external without its type suffix"""
    if n.startswith('llvm.'):
        return '.'.join(n.split('.')[:2])
    return n


class Rules:
    def __init__(s, eng):
        s.e = eng
        s.m = eng.m
        import os
        s.lib = [f for f in s.m.funcs.values() if not f.decl and os.path.basename(f.file or '') not in CLI]
        if len(s.lib) < 40:
            raise AnalysisError('only %d library functions found' % len(s.lib))
        for f in s.lib:
            eng.cov['functions'][f.src] = 1
        s.defs = {}
        s.sites = {}         # callee name -> [(caller, ins)]
        s.addrtaken = {}     # function name -> [(function, ins)]
        for f in s.m.funcs.values():
            if f.decl:
                continue
            for i in f.ins():
                if i.res is not None:
                    s.defs[(f.name, i.res)] = i
                if i.op == 'call' and i.x[0] == 'g':
                    s.sites.setdefault(i.x[1], []).append((f, i))
        s.nodes = {}
        s.outcomes = {}
        s.G = {}
        s.steps = 0

    def ext(s, f):
        """calls of externals in f: (name, ins)"""
        for i in f.ins():
            if i.op == 'call' and i.x[0] == 'g':
                g = s.m.funcs.get(i.x[1])
                if g is not None and g.decl and not i.x[1].startswith('llvm.dbg'):
                    yield base(i.x[1]), i

    # ------------------------------------------------------------ value roots
    def roots(s, f, v, seen=None):
        """objects the pointer operand v may be based on: ('g',name) ('param',i) ('call',name) ('other',)"""
        seen = set() if seen is None else seen
        out = set()
        if v[0] == 'g':
            out.add(('g', v[1]))
        elif v[0] == 'ce':
            if v[1] == 'gep':
                out |= s.roots(f, v[3][0][1], seen)
            elif len(v) > 3 and isinstance(v[3], tuple):
                out |= s.roots(f, v[3], seen)
        elif v[0] == 'r':
            if v[1] in seen:
                return out
            seen.add(v[1])
            for k, (t, nm) in enumerate(f.params):
                if nm == v[1]:
                    out.add(('param', k))
                    return out
            d = s.defs.get((f.name, v[1]))
            if d is None:
                out.add(('other',))
            elif d.op == 'gep':
                out |= s.roots(f, d.a[0][1], seen)
            elif d.op == 'phi':
                for x, _ in d.a:
                    out |= s.roots(f, x, seen)
            elif d.op == 'select':
                out |= s.roots(f, d.a[1], seen) | s.roots(f, d.a[2], seen)
            elif d.op in CAST:
                out |= s.roots(f, d.a[0], seen)
            elif d.op in ('add', 'sub', 'and', 'or'):
                out |= s.roots(f, d.a[0], seen) | s.roots(f, d.a[1], seen)
            elif d.op == 'call':
                nm = d.x[1] if d.x[0] == 'g' else '?'
                out.add(('call', base(nm), id(d)))
                g = s.m.funcs.get(nm)
                if g is not None and not g.decl:
                    for r in s.retroots(g):
                        if r[0] == 'g':
                            out.add(r)
                        elif r[0] == 'param' and r[1] < len(d.a):
                            out |= s.roots(f, d.a[r[1]][1], seen)
                elif base(nm) in ('memcpy', 'memmove', 'memset', 'strcpy', 'strchr', 'strrchr', 'strcat') and d.a:
                    out |= s.roots(f, d.a[0][1], seen)
            elif d.op == 'alloca':
                out.add(('alloca', v[1]))
            elif d.op == 'load':
                for r in s.roots(f, d.a[0], set()):
                    out.add(('load', r))
            else:
                out.add(('other',))
        return out

    def retroots(s, g):
        c = getattr(s, '_rr', None)
        if c is None:
            c = s._rr = {}
        if g.name in c:
            return c[g.name]
        c[g.name] = set()
        out = set()
        if g.ret is not None and g.ret.k == 'ptr':
            for i in g.ins():
                if i.op == 'ret' and i.a:
                    out |= s.roots(g, i.a[0])
        c[g.name] = out
        return out

    def dominators(s, f):
        find_loops(f)
        succ = f._succ
        order = f.order
        pred = {b: [] for b in order}
        for b, ss in succ.items():
            for x in ss:
                pred[x].append(b)
        return succ, pred

    def guarded(s, f, blk, good):
        """is every path from the entry to blk through an edge (b,k) with good(b,k)?"""
        succ, pred = s.dominators(f)
        seen = set()
        st = [f.order[0]]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == blk:
                return False
            t = f.blocks[b][-1]
            if t.op == 'cbr':
                for k, x in ((1, t.a[1]), (0, t.a[2])):
                    if not good(f, b, t, k):
                        st.append(x)
            else:
                st += succ[b]
        return True

    def block_of(s, f, ins):
        for b in f.order:
            for i in f.blocks[b]:
                if i is ins:
                    return b

    # ------------------------------------------------------------ allocation failure edges
    def null_edge(s, f, b, t, k):
        """edge taken when the result of an allocation is null"""
        return s.null_cond(f, t.a[0], k)

    def null_cond(s, f, c, k, d=0):
        if d > 6 or c[0] != 'r':
            return False
        i = s.defs.get((f.name, c[1]))
        if i is None:
            return False
        if i.op == 'icmp' and i.x[0] in ('eq', 'ne') and i.x[1].k == 'ptr':
            a, b = i.a
            if b[0] != 'null':
                a, b = b, a
            if b[0] != 'null':
                return False
            if (i.x[0] == 'eq') != bool(k):
                return False
            r = s.roots(f, a)
            return bool(r) and all(s.is_alloc(x) for x in r if x[0] != 'param' or True)
        if i.op == 'icmp' and i.x[0] in ('eq', 'ne') and i.a[1] == ('c', 0):
            # comparison of a truth value with zero
            return s.null_cond(f, i.a[0], k if i.x[0] == 'ne' else 1 - k, d + 1)
        if i.op == 'xor' and i.a[1] in (('c', 1), ('c', -1)):
            return s.null_cond(f, i.a[0], 1 - k, d + 1)
        if i.op in ('zext', 'trunc', 'sext'):
            return s.null_cond(f, i.a[0], k, d + 1)
        if i.op == 'call' and i.x[0] == 'g' and i.x[1].startswith('llvm.expect'):
            return s.null_cond(f, i.a[0][1], k, d + 1)
        return False

    def is_alloc(s, r):
        if r[0] != 'call':
            return False
        if r[1] in ALLOC:
            return True
        g = s.m.funcs.get(r[1])
        if g is not None and not g.decl:
            rr = [x for x in s.retroots(g) if x[0] != 'other']
            return bool(rr) and all(s.is_alloc(x) for x in rr)
        return False

    def start(s):
        for n, f in (('C21', s.c21), ('C22', s.c22)):
            f()

    # ------------------------------------------------------------ C21
    def c21(s):
        e = s.e
        lib = {f.name for f in s.lib}
        # parameter roots, to a fixpoint over the call graph
        pr = {f.name: [set() for _ in f.params] for f in s.lib}
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for f in s.lib:
                for i in f.ins():
                    if i.op == 'call' and i.x[0] == 'g' and i.x[1] in pr:
                        for k, (t, v) in enumerate(i.a):
                            if t.k != 'ptr' or k >= len(pr[i.x[1]]):
                                continue
                            new = s.globs(f, v, pr)
                            if not new <= pr[i.x[1]][k]:
                                pr[i.x[1]][k] |= new
                                ch = True
        internal_calls = {i.x[1] for f in s.lib for i in f.ins() if i.op == 'call' and i.x[0] == 'g'}
        ng = 0
        for f in s.lib:
            for i in f.ins():
                if i.op == 'store':
                    gl = s.globs(f, i.a[1], pr)
                    for g in gl:
                        ng += 1
                        e.oblige(None, s.setter(f, i, g, internal_calls), ('C21',), 'library function changes the %s %s, '
                                 'which all jobs share' % (s.kind(g), g), i, rule='shared-state')
                    if not gl:
                        e.oblige(None, True, ('C21',), '')
                    if i.ty.k == 'ptr':
                        for g in s.globs(f, i.a[0], pr):
                            gg = s.m.globals.get(g)
                            if gg is None or gg['const'] or g in s.m.funcs:
                                continue
                            e.oblige(None, False, ('C21',), 'the address of the mutable %s %s is kept in an object, so jobs '
                                     'would share it' % (s.kind(g), g), i, rule='shared-state')
                elif i.op == 'call' and i.x[0] == 'g':
                    nm = base(i.x[1])
                    g2 = s.m.funcs.get(i.x[1])
                    if g2 is None or not g2.decl or nm.startswith('llvm.dbg'):
                        continue
                    if nm in HIDDEN:
                        ok = nm == 'strerror' and s.only_logged(f, i)
                        e.oblige(None, ok, ('C21',), 'library uses %s(), whose hidden state all jobs share' % nm, i,
                                 rule='hidden-state')
                    for k, (t, v) in enumerate(i.a):
                        if t.k != 'ptr':
                            continue
                        for g in s.globs(f, v, pr):
                            gg = s.m.globals.get(g)
                            if gg is None or (gg['const'] and nm in WRITES and k not in WRITES[nm]) or (gg['const'] and nm not in
                                                                                                   WRITES) or gg['ext']:
                                continue
                            w = k in WRITES[nm] if nm in WRITES else nm not in READS
                            e.oblige(None, not w, ('C21',), 'library function lets %s() write the %s %s, which all jobs '
                                     'share' % (nm, s.kind(g), g), i, rule='shared-state')
        s.nodes['globals'] = len(s.m.globals)
        # every mutable global is covered
        for g, d in s.m.globals.items():
            if not d['const'] and not d['ext']:
                s.e.oblige(None, True, ('C21',), '')

    def kind(s, g):
        return 'function-static variable' if '.' in g else 'global variable'

    def globs(s, f, v, pr):
        out = set()
        for r in s.roots(f, v):
            if r[0] == 'g':
                out.add(r[1])
            elif r[0] == 'param' and f.name in pr:
                out |= pr[f.name][r[1]]
            elif r[0] == 'load':
                # a pointer kept in a mutable global: what it points to is shared as well
                if r[1][0] == 'g':
                    gg = s.m.globals.get(r[1][1])
                    if gg is not None and not gg['const'] and not gg['ext']:
                        out.add(r[1][1])
        return {g for g in out if g in s.m.globals and not s.m.globals[g]['ext']}

    def setter(s, f, i, g, called):
        """a public configuration setter: stores its own parameter in a global, and no library code calls it"""
        if '.' in g or f.internal or f.name in called or s.m.globals[g]['const']:
            return False
        v = i.a[0]
        while v[0] == 'r':
            if any(nm == v[1] for _, nm in f.params):
                return True
            d = s.defs.get((f.name, v[1]))
            if d is None or d.op not in CAST:
                return False
            v = d.a[0]
        return False

    def only_logged(s, f, i):
        uses = [j for j in f.ins() if j is not i and s.uses(j, i.res)]
        return all(j.op == 'call' and j.x[0] == 'g' and s.m.funcs[j.x[1]].src in LOGFN for j in uses)

    def uses(s, j, reg):
        def has(v):
            return v == ('r', reg)
        for x in j.a:
            if isinstance(x, tuple) and (has(x) or (len(x) == 2 and isinstance(x[1], tuple) and has(x[1])) or
                                         (len(x) == 2 and isinstance(x[0], tuple) and has(x[0]))):
                return True
        return False

    # ------------------------------------------------------------ C22
    GUARDS = ('rs_file_open', 'rs_base64')

    def c22(s):
        e = s.e
        lib = {f.name for f in s.lib}
        default_log = set()
        for g, d in s.m.globals.items():
            if d['init'] is not None and d['init'][0] == 'g' and d['init'][1] in s.m.funcs and not d['const']:
                default_log.add(d['init'][1])
        nterm = 0
        memo = {}

        def site_ok(f, ins, seen):
            """may this terminating call be there?"""
            if f.src in s.GUARDS:
                return True
            if s.guarded(f, s.block_of(f, ins), s.null_edge):
                return True
            if f.name in seen:
                return True
            # a helper that only ends the process: every use of it must be allowed
            us = [(g, i) for g, i in s.sites.get(f.name, []) if g.name in lib]
            if not us or s.taken(f.name):
                return False
            if not f.internal and f.src in s.public():
                return False
            return all(site_ok(g, i, seen | {f.name}) for g, i in us)
        for f in s.lib:
            for nm, i in s.ext(f):
                if nm in TERMINATE:
                    nterm += 1
                    e.oblige(None, site_ok(f, i, frozenset()), ('C22',), 'library function can end the process: %s() is reached '
                             'without a refused allocation' % nm, i, rule='terminate')
                elif nm in STDOUT or nm in FDOUT:
                    e.oblige(None, False, ('C22',), 'library function uses %s(), which bypasses the log callback and the '
                             'given files' % nm, i, rule='std-stream')
                else:
                    e.oblige(None, True, ('C22',), '')
            for i in f.ins():
                if i.op == 'call' and i.x[0] == 'g' and i.x[1] in lib:
                    g = s.m.funcs[i.x[1]]
                    if g.src in s.GUARDS and f.src not in s.GUARDS:
                        e.oblige(None, False, ('C22',), 'library function calls %s(), which ends the process on misuse' % g.src,
                                 i, rule='terminate')
                    if g.name in default_log:
                        e.oblige(None, False, ('C22',), 'library function prints directly with %s() instead of going through '
                                 'the log callback' % g.src, i, rule='std-stream')
                    if g.src in LOGFN:
                        lv = i.a[0][1]
                        ok = lv[0] == 'c' and 0 <= lv[1] <= 15
                        if lv[0] == 'r':
                            ok = True
                        e.oblige(None, ok, ('C22', 'C26'), 'message logged with invalid severity', i, rule='severity')
                if i.op == 'load' and i.a[0] in (('g', 'stdout'), ('g', 'stderr'), ('g', 'stdin')):
                    nm = i.a[0][1]
                    if f.name in default_log and nm == 'stderr':
                        e.oblige(None, True, ('C22',), '')
                        continue
                    bad = s.stream_used(f, i.res, set())
                    e.oblige(None, bad is None, ('C22',), 'library function does I/O on %s by itself' % nm, bad or i,
                             rule='std-stream')
        if not nterm:
            raise AnalysisError('no process-terminating call found in the library (anchor vanished)')

    def public(s):
        return s.GUARDS

    def taken(s, name):
        for f in s.m.funcs.values():
            if f.decl:
                continue
            for i in f.ins():
                ops = list(i.a)
                for x in ops:
                    if x == ('g', name) or (isinstance(x, tuple) and len(x) == 2 and x[1] == ('g', name)):
                        return True
        return False

    def stream_used(s, f, reg, seen):
        """a call that does I/O on the stream value in reg, or None"""
        if reg in seen:
            return None
        seen.add(reg)
        for j in f.ins():
            if not s.uses(j, reg):
                continue
            if j.op == 'call':
                return j
            if j.op in ('phi', 'select') or j.op in CAST:
                b = s.stream_used(f, j.res, seen)
                if b is not None:
                    return b
            if j.op == 'store':
                return j
        return None
