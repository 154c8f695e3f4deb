"""Abstract interpreter over SSA LLVM IR.

Abstract domain: finite disjunctions (trace partitioning) of
   linear-relational numeric constraints  x  region memory with symbolic content segments.
Loops are handled by bounded unrolling when the domain decides the exit, otherwise by
inferred inductive invariants (affine equalities a la Karr + candidate inequalities
filtered to an inductive subset).  No code is run and no solver is used."""
import math
import sys
from fractions import Fraction
from irparse import *
from lin import *

sys.setrecursionlimit(20000)

MAXOBJ = 1 << 47


class AnalysisError(Exception):
    """the analysis cannot give an answer (vanished anchor, unsupported construct)"""


class Fork(Exception):
    """the current abstract state must be partitioned; alts = list of constraint lists
    each constraint ('ge',L) or ('eq',L)"""

    def __init__(s, alts):
        s.alts = alts


class Resign(Exception):
    def __init__(s, x):
        s.x = x


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(s, r, o):
        s.r = r
        s.o = o

    def __repr__(s):
        return '&%s+%r' % (s.r, s.o)


class Fn:
    __slots__ = ('name',)

    def __init__(s, name):
        s.name = name

    def __repr__(s):
        return '&fn ' + s.name

    def __eq__(a, b):
        return isinstance(b, Fn) and a.name == b.name

    def __hash__(s):
        return hash(s.name)


class Opaque:
    """opaque non-integer value (float, undef)"""
    __slots__ = ('k',)

    def __init__(s, k):
        s.k = k

    def __repr__(s):
        return '?' + str(s.k)


def static_interval(e):
    lo = hi = e.c
    for k, v in e.d.items():
        a, b = SYM.bounds[k]
        if v < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + v * a
        hi = None if hi is None or b is None else hi + v * b
    return lo, hi


NULL = Ptr(None, L(0))
UNDEF = Opaque('undef')


def isnull(p):
    return isinstance(p, Ptr) and p.r is None and p.o == 0


class Region:
    __slots__ = ('id', 'kind', 'size', 'name', 'freed', 'default', 'cells', 'segs', 'parent', 'base', 'tags',
                 'structured', 'const', 'subs', 'addr', 'info')

    def __init__(s, id, kind, size, name, default='undef', structured=False, const=False):
        s.id = id
        s.kind = kind
        s.size = size
        s.name = name
        s.freed = False
        s.default = default
        s.cells = {}
        s.segs = ()
        s.parent = None
        s.base = 0
        s.tags = ()
        s.structured = structured
        s.const = const
        s.subs = {}
        s.addr = None
        s.info = None

    def clone(s):
        t = Region(s.id, s.kind, s.size, s.name, s.default, s.structured, s.const)
        t.freed = s.freed
        t.cells = dict(s.cells)
        t.segs = s.segs
        t.parent = s.parent
        t.base = s.base
        t.tags = s.tags
        t.subs = dict(s.subs)
        t.addr = s.addr
        t.info = s.info
        return t


SNAPS = {}


class State:
    __slots__ = ('cs', 'mem', 'own', 'env', 'stack', 'ghost', 'ev', 'trail', 'dead')

    def __init__(s):
        s.cs = Store()
        s.mem = {}
        s.own = set()
        s.env = {}
        s.stack = []
        s.ghost = {}
        s.ev = None
        s.trail = None
        s.dead = False

    def copy(s):
        t = State()
        t.cs = s.cs.copy()
        t.mem = dict(s.mem)
        s.own = set()
        t.env = dict(s.env)
        t.stack = list(s.stack)
        t.ghost = dict(s.ghost)
        t.ev = s.ev
        t.trail = s.trail
        return t

    def w(s, rid):
        r = s.mem[rid]
        if rid not in s.own:
            r = r.clone()
            s.mem[rid] = r
            s.own.add(rid)
        return r

    def event(s, *e):
        s.ev = (s.ev, e)

    def events(s):
        out = []
        x = s.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        return out[::-1]

    def note(s, t):
        s.trail = (s.trail, t)

    def trail_list(s, n=60):
        out = []
        x = s.trail
        while x is not None and len(out) < n:
            out.append(x[1])
            x = x[0]
        return out[::-1]


class Loop:
    def __init__(s, header):
        s.header = header
        s.blocks = {header}
        s.parent = None


def find_loops(fn):
    if hasattr(fn, '_loops'):
        return fn._loops
    succ = {}
    for b in fn.order:
        t = fn.blocks[b][-1]
        if t.op == 'br':
            succ[b] = [t.a[0]]
        elif t.op == 'cbr':
            succ[b] = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            succ[b] = [t.a[1]] + [l for _, l in t.a[2]]
        else:
            succ[b] = []
    pred = {b: [] for b in fn.order}
    for b, ss in succ.items():
        for x in ss:
            pred[x].append(b)
    # dominators (iterative)
    entry = fn.order[0]
    allb = set(fn.order)
    dom = {b: set(allb) for b in fn.order}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in fn.order:
            if b == entry:
                continue
            ps = [dom[p] for p in pred[b]]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in fn.order:
        for x in succ[b]:
            if x in dom[b]:
                lp = loops.setdefault(x, Loop(x))
                stack = [b]
                while stack:
                    y = stack.pop()
                    if y not in lp.blocks:
                        lp.blocks.add(y)
                        stack.extend(pred[y])
    fn._loops = loops
    fn._succ = succ
    return loops


def pow2(n):
    return n > 0 and n & (n - 1) == 0


def tz(n):
    k = 0
    if n == 0:
        return 10 ** 6
    while n % 2 == 0:
        n //= 2
        k += 1
    return k


class Engine:
    def __init__(s, mod):
        s.m = mod
        s.models = {}          # external function name -> model
        s.summaries = {}       # source function name -> model replacing the body
        s.violations = []
        s.vkeys = set()
        s.mute = 0
        s.nreg = 0
        s.cov = {'functions': {}, 'paths': 0, 'calls': 0, 'loops_inv': 0,
                 'loops_unrolled': 0, 'steps': 0}
        s.bt = {}              # tag -> (obligations, proved)
        s.tagmap = {}          # region kind -> property tags for bounds errors
        s.default_tags = ()
        s.loop_templates = []
        s.fold = None
        s.callback = None      # hook for unknown indirect calls
        s.globals = {}
        s.unroll_forks = 3
        s.unroll_max = 400
        s.unroll_width = 64
        s.harvest = None
        s.gcache = {}
        s.depth = 0
        s.budget = 3_000_000
        s.trace_calls = False
        s.access_hook = None
        s.events_on = set()
        s.max_states = 4000
        s.iohook = None
        s.on_exit = None
        s.store_hook = None
        s.load_hook = None
        s.part = None          # (which loops, partition key, canonicalisation) for partitioned invariants
        s.part_entry = None
        s.rank_tags = ('C17',)
        s.ring = None          # ghost residues; loop-carried integers used only as residues need no canonical form
        s.powers = None        # arithmetic on powers of a constant
        import models
        models.install(s)
        import absdom
        absdom.note_consts(mod)

    # ---------------------------------------------------------------- reports
    def report(s, st, tags, msg, ins=None, fn=None, rule=''):
        if s.mute:
            return
        f = fn or (ins.fn if ins is not None else None)
        key = (tuple(sorted(tags)), msg, f.src if f else '', ins.line if ins is not None else 0)
        if key in s.vkeys:
            return
        s.vkeys.add(key)
        s.violations.append(dict(tags=sorted(tags), msg=msg, file=(f.file if f else None),
                                 function=(f.src if f else None), line=(ins.line if ins is not None else 0),
                                 rule=rule, trail=st.trail_list() if st is not None else []))

    def oblige(s, st, cond, tags, msg, ins=None, fn=None, rule=''):
        """record an obligation; cond is bool"""
        if not s.mute:
            b = s.bt
            for g in tags:
                o = b.get(g, (0, 0))
                b[g] = (o[0] + 1, o[1] + (1 if cond else 0))
        if cond:
            return True
        s.report(st, tags, msg, ins, fn, rule)
        return False

    # ---------------------------------------------------------------- regions
    def new_region(s, st, kind, size, name, **kw):
        s.nreg += 1
        rid = s.nreg
        if isinstance(size, int):
            size = L(size)
        r = Region(rid, kind, size, name, **kw)
        st.mem[rid] = r
        st.own.add(rid)
        return rid

    def addr_of(s, st, p):
        if p.r is None:
            return p.o
        r = st.mem[p.r]
        if r.parent is not None:
            return s.addr_of(st, Ptr(r.parent, L(r.base))) + p.o
        return SYM.term(('addr', p.r), 'addr_' + str(r.name), 1 << 20, 1 << 47) + p.o

    def region_of_global(s, st, name):
        if name in s.m.funcs:
            return Fn(name)
        rid = 'g:' + name
        if rid not in st.mem:
            g = s.m.globals[name]
            const = g['const'] or s.effconst(name)
            r = Region(rid, 'global', L(s.m.size(g['ty'])) if not g['ext'] else None, name,
                       default='lazy', const=const)
            if const and g['init'] is not None:
                r.cells = s.flatten(g)
                r.default = 'zero'
            st.mem[rid] = r
        return Ptr(rid, L(0))

    def effconst(s, name):
        """an internal variable that no instruction can change: only loaded from"""
        c = s.m.__dict__.setdefault('_effconst', {})
        if name in c:
            return c[name]
        c[name] = False
        if not s.m.globals[name].get('internal'):
            return False

        def refs(v, reg):
            if not isinstance(v, tuple):
                return False
            if v == reg:
                return True
            if v and v[0] == 'ce':
                return any(refs(x, reg) or (isinstance(x, list) and any(refs(y[1], reg) for y in x)) for x in v[2:])
            return False

        seen = set()
        noint = not any(i.op == 'inttoptr' for g in s.m.funcs.values() if not g.decl for i in g.ins())

        def readonly(f, reg, d):
            if d > 40:
                return False
            if (f.name, reg) in seen:
                return True
            seen.add((f.name, reg))
            for i in f.ins():
                ops = [x[1] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x for x in i.a]
                if i.op == 'phi':
                    ops = [x[0] for x in i.a]
                if not any(refs(x, reg) for x in ops):
                    continue
                if i.op == 'load' or i.op == 'icmp':
                    continue
                if i.op == 'ptrtoint' and noint:
                    continue
                if i.op in ('gep', 'phi', 'select') or i.op in CAST:
                    if not readonly(f, ('r', i.res), d + 1):
                        return False
                    continue
                if i.op == 'call' and i.x[0] == 'g' and (i.x[1] == 'memcpy' or i.x[1].startswith('llvm.memcpy')) and \
                        not refs(ops[0], reg):
                    continue
                if i.op == 'call' and i.x[0] == 'g' and i.x[1] in s.m.funcs and not s.m.funcs[i.x[1]].decl:
                    c2 = s.m.funcs[i.x[1]]
                    if len(ops) == len(c2.params) and not c2.vararg and all(
                            readonly(c2, ('r', pn), d + 1) for (pt, pn), x in zip(c2.params, ops) if refs(x, reg)):
                        continue
                return False
            return True
        for g2, d2 in s.m.globals.items():
            if d2['init'] is not None and ("'%s'" % name) in repr(d2['init']) and g2 != name:
                return False
        c[name] = all(readonly(f, ('g', name), 0) for f in s.m.funcs.values() if not f.decl)
        return c[name]

    def flatten(s, g):
        nm = g['name']
        if nm in s.gcache:
            return s.gcache[nm]
        cells = {}

        def rec(off, ty, v):
            t = s.m.resolve(ty)
            if v[0] == 'zero':
                return
            if v[0] == 'str':
                for i, b in enumerate(v[1]):
                    if b:
                        cells[off + i] = (1, L(b))
            elif v[0] == 'agg':
                if t.k == 'arr':
                    es = s.m.size(t.el)
                    for i, (et, ev) in enumerate(v[1]):
                        rec(off + i * es, et, ev)
                else:
                    for i, (et, ev) in enumerate(v[1]):
                        o, ft = s.m.field_off(t, i)
                        rec(off + o, et, ev)
            elif v[0] == 'c':
                n = v[1]
                if n < 0:
                    n += 1 << t.n
                cells[off] = (s.m.size(t), L(n))
            elif v[0] == 'null':
                cells[off] = (8, NULL)
            elif v[0] == 'g':
                cells[off] = (8, ('gref', v[1]))
            elif v[0] == 'ce' and v[1] == 'gep':
                cells[off] = (8, ('ceref', v))
            else:
                cells[off] = (s.m.size(t), UNDEF)

        rec(0, g['ty'], g['init'])
        s.gcache[nm] = cells
        return cells

    # ---------------------------------------------------------------- integers
    def to_u(s, st, e, w):
        """canonical unsigned representative"""
        cs = st.cs
        e = cs.norm(e)
        M = 1 << w
        if e.isconst():
            return L(e.c % M)
        lo, hi = cs.interval(e)
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return e
        if (lo is not None and lo >= 0 or cs.prove(e)) and (hi is not None and hi < M or cs.prove(L(M - 1) - e)):
            return e
        return s._wrap(st, e, w, 0)

    def to_s(s, st, e, w):
        cs = st.cs
        e = cs.norm(e)
        M = 1 << w
        H = M >> 1
        if e.isconst():
            c = e.c % M
            return L(c - M if c >= H else c)
        lo, hi = cs.interval(e)
        if lo is not None and hi is not None and lo >= -H and hi < H:
            return e
        if (lo is not None and lo >= -H or cs.prove(e + H)) and (hi is not None and hi < H or cs.prove(L(H - 1) - e)):
            return e
        return s._wrap(st, e, w, H)

    def _wrap(s, st, e, w, off):
        """e -> e - k*2^w in [-off, 2^w-off)"""
        cs = st.cs
        M = 1 << w
        # drop multiples of M
        red = L(e.c, {k: ((v + M // 2) % M) - M // 2 for k, v in e.d.items() if v % M})
        red = L(red.c % M, red.d) if abs(red.c) >= M else red
        if red != e:
            lo, hi = cs.interval(red)
            if lo is not None and hi is not None and lo >= -off and hi < M - off:
                return red
            if off == 0 and any(v < 0 for v in red.d.values()):
                pos = L(e.c % M, {k: v % M for k, v in red.d.items()})
                lo, hi = cs.interval(pos)
                if lo is not None and hi is not None and lo >= 0 and hi < M:
                    return pos
            e = red
        lo, hi = cs.interval(e)
        if lo is not None and hi is not None:
            k0 = (lo + off) // M
            k1 = (hi + off) // M
            if k0 == k1:
                return e - k0 * M
            if k1 - k0 <= 3:
                alts = []
                for k in range(k0, k1 + 1):
                    a = e - k * M + off
                    b = L(M - 1) - a
                    if cs.feasible_with([a, b]):
                        alts.append((k, [('ge', a), ('ge', b)]))
                if len(alts) == 1:
                    st.cs.add_ge0(alts[0][1][0][1])
                    st.cs.add_ge0(alts[0][1][1][1])
                    return e - alts[0][0] * M
                if alts:
                    raise Fork([c for _, c in alts])
                st.cs.dead = True
                return e
        # unknown number of wraps: exact definition with the floor quotient
        return s.divmod(st, e + off, M)[1] - off

    def divmod(s, st, e, m):
        """floor quotient and remainder of mathematical integer e by constant m>0"""
        cs = st.cs
        e = cs.norm(e)
        A = L(0)
        B = L(0)
        qa, rb = divmod(e.c, m)
        A = A + qa
        B = B + rb
        for k, v in e.d.items():
            q, r = divmod(v, m)
            if r > m // 2 and r != m:
                # keep coefficients small in absolute value
                q += 1
                r -= m
            if q:
                A = A + L(0, {k: q})
            if r:
                B = B + L(0, {k: r})
        if B.isconst():
            q, r = divmod(B.c, m)
            return A + q, L(r)
        lo, hi = cs.interval(B)
        if lo is not None and hi is not None and lo // m == hi // m:
            k = lo // m
            return A + k, B - k * m
        if cs.prove(B) and cs.prove(L(m - 1) - B):
            return A, B
        # bounds of a term hold in every state: only what the symbols themselves imply
        glo, ghi = static_interval(B)
        q = SYM.term(('div', B.key(), m), 'q', None if glo is None else glo // m, None if ghi is None else ghi // m)
        if lo is not None and lo != glo:
            cs.add_ge0(q - lo // m)
        if hi is not None and hi != ghi:
            cs.add_ge0(L(hi // m) - q)
        r = B - q.scale(m)
        cs.add_ge0(r)
        cs.add_ge0(L(m - 1) - r)
        return A + q, r

    def emod(s, st, e, m):
        return s.divmod(st, e, m)[1]

    def shr(s, st, e, k):
        """floor(e / 2^k); whole bytes are dropped one at a time so that equal quotients are equal terms"""
        if k % 8 or k > 64:
            return s.divmod(st, e, 1 << k)[0]
        for _ in range(k // 8):
            e = s.divmod(st, e, 256)[0]
        return e

    def decide(s, st, e):
        """truth of e>=0: True/False or Fork"""
        cs = st.cs
        if cs.prove(e):
            return True
        ne = L(-1) - e
        if cs.prove(ne):
            return False
        if s.harvest is not None:
            s.harvest.append(cs.norm(e))
        raise Fork([[('ge', e)], [('ge', ne)]])

    def decide_eq(s, st, e):
        cs = st.cs
        e = cs.norm(e)
        if e.isconst():
            return e.c == 0
        ge, le = cs.prove(e), cs.prove(-e)
        if ge and le:
            return True
        if cs.prove(e - 1) or cs.prove(-e - 1):
            return False
        if s.harvest is not None:
            s.harvest.append(e)
            s.harvest.append(-e)
        alts = [[('eq', e)]]
        if not le:
            alts.append([('ge', e - 1)])
        if not ge:
            alts.append([('ge', -e - 1)])
        raise Fork(alts)

    # ---------------------------------------------------------------- operands
    def val(s, st, v, ty=None):
        k = v[0]
        if k == 'r':
            return st.env[v[1]]
        if k == 'c':
            return L(v[1])
        if k == 'null':
            return NULL
        if k == 'g':
            return s.region_of_global(st, v[1])
        if k == 'undef':
            return UNDEF if ty is None or ty.k != 'int' else SYM.sym('undef', 0, (1 << ty.n) - 1)
        if k == 'f':
            return Opaque('float')
        if k == 'ce':
            return s.const_expr(st, v)
        if k == 'zero':
            return L(0)
        raise AnalysisError('operand %r' % (v,))

    def const_expr(s, st, v):
        if v[1] == 'gep':
            args = v[3]
            base = s.val(st, args[0][1])
            return s.gep(st, v[2], base, [(t, s.val(st, x)) for t, x in args[1:]])
        if v[1] in ('bitcast', 'inttoptr', 'ptrtoint'):
            return s.val(st, v[3])
        raise AnalysisError('constant expression %r' % (v,))

    def deref_const(s, st, val):
        if isinstance(val, tuple):
            if val[0] == 'gref':
                return s.region_of_global(st, val[1])
            if val[0] == 'ceref':
                return s.const_expr(st, val[1])
        return val

    def gep(s, st, sty, base, idx):
        if isinstance(base, Fn) or isinstance(base, Opaque):
            return base
        if isinstance(base, L):
            # integer used as pointer (inttoptr) - opaque
            return Opaque('ptr')
        ty = sty
        off = base.o
        rid = base.r
        for j, (ity, i) in enumerate(idx):
            if not isinstance(i, L):
                raise AnalysisError('gep index')
            i = s.to_s(st, i, ity.n)
            if j == 0:
                off = off + i.scale(s.m.size(ty))
                continue
            t = s.m.resolve(ty)
            if t.k == 'struct':
                o, ft = s.m.field_off(t, i.c)
                off = off + o
                ty = ft
                f = s.m.resolve(ft)
                if f.k == 'arr' and f.n > 0 and rid is not None:
                    off2 = st.cs.norm(off)
                    r = st.mem[rid]
                    if r.structured and off2.isconst() and r.parent is None and r.size is not None and \
                            r.size == s.m.size(sty):
                        rid = s.subregion(st, rid, off2.c, s.m.size(f))
                        off = L(0)
            elif t.k == 'arr':
                off = off + i.scale(s.m.size(t.el))
                ty = t.el
            else:
                raise AnalysisError('gep into %r' % t)
        return Ptr(rid, off)

    def subregion(s, st, rid, off, size):
        sid = (rid, off)
        if sid not in st.mem:
            r = st.w(rid)
            sub = Region(sid, r.kind, L(size), '%s.%s' % (r.name, s.field_name(r, off)), default=r.default,
                         const=r.const)
            sub.parent = rid
            sub.base = off
            sub.tags = r.tags
            for o in list(r.cells):
                if off <= o < off + size:
                    sub.cells[o - off] = r.cells.pop(o)
            r.subs[off] = (size, sid)
            st.mem[sid] = sub
            st.own.add(sid)
        return sid

    def field_name(s, r, off):
        if r.info:
            for nm, (o, sz, _) in r.info.items():
                if o == off:
                    return nm
        return str(off)

    # ---------------------------------------------------------------- memory
    def check_access(s, st, p, size, write, ins, what=''):
        """bounds/liveness obligation for [p,p+size)"""
        if isinstance(p, Opaque) or isinstance(p, Fn):
            return False
        if isinstance(size, int):
            size = L(size)
        if p.r is None:
            # null (or integer) dereference
            if st.cs.prove(-size):
                return False
            tg = s.tags_for('null')
            if 'C20' not in tg and any(x[0] == 'allocfail' for x in st.events()):
                tg = tuple(tg) + ('C20',)
            s.oblige(st, False, tg, 'possible null-pointer dereference' + what, ins, rule='null')
            st.dead = True
            return False
        r = st.mem[p.r]
        tags = r.tags or s.tags_for(r.kind)
        if s.access_hook and not s.mute:
            s.access_hook(st, p, size, write, ins, r)
        if r.freed:
            s.oblige(st, False, s.tags_for('freed'), 'use of freed memory (%s)' % r.name, ins, rule='lifetime')
            return False
        if write and r.const:
            s.oblige(st, st.cs.prove(-size), s.tags_for('constwrite'), 'write to read-only object %s' % r.name, ins,
                     rule='const')
        if r.size is not None:
            cs = st.cs
            if st.cs.prove(-size):
                s.oblige(st, True, tags, '', ins)
                return True
            ok = cs.prove(p.o) and cs.prove(r.size - p.o - size)
            s.oblige(st, ok, tags, '%s outside %s: offset %r length %r size %r' % (
                'write' if write else 'read', r.name, cs.norm(p.o), cs.norm(size), cs.norm(r.size)), ins, rule='bounds')
            if not ok:
                cs.add_ge0(p.o)
                cs.add_ge0(r.size - p.o - size)
                if cs.dead or not cs.feasible():
                    st.dead = True
        else:
            s.oblige(st, True, tags, '', ins)
        return True

    def tags_for(s, kind):
        return s.tagmap.get(kind, s.default_tags)

    def redirect(s, st, rid, off, size):
        """const access to a parent object that falls in a sub-array"""
        r = st.mem[rid]
        if r.subs and off.isconst():
            for so, (sz, sid) in r.subs.items():
                if so <= off.c < so + sz:
                    return sid, off - so
        return rid, off

    def fresh_for(s, ty, name):
        if ty.k == 'int':
            return SYM.sym(name, 0, (1 << ty.n) - 1)
        if ty.k == 'ptr':
            return Opaque('ptr')
        return Opaque('float')

    def load(s, st, p, ty, ins=None):
        size = s.m.size(ty)
        if not s.check_access(st, p, size, False, ins):
            if st.dead:
                return L(0)
            return s.fresh_for(ty, 'ext')
        if s.load_hook is not None:
            v = s.load_hook(st, p, ty, ins)
            if v is not None:
                return v
        off = st.cs.norm(p.o)
        rid, off = s.redirect(st, p.r, off, size)
        r = st.mem[rid]
        v = s.load_raw(st, r, off, size, ty)
        if isinstance(v, tuple):
            v = s.deref_const(st, v)
        if ty.k == 'int' and not isinstance(v, L):
            if isinstance(v, Ptr) or isinstance(v, Fn):
                v = SYM.sym('pint', 0, (1 << ty.n) - 1)
            else:
                v = SYM.sym('undef', 0, (1 << ty.n) - 1)
        if ty.k == 'int' and ty.n == 1 and isinstance(v, L) and not v.isconst():
            pass
        if ty.k == 'ptr' and isinstance(v, L):
            v = NULL if v == 0 else Opaque('ptr')
        return v

    def load_raw(s, st, r, off, size, ty):
        cs = st.cs
        if off.isconst():
            c = r.cells.get(off.c)
            if c is not None and c[0] == size:
                return c[1]
            if c is not None and c[0] > size and isinstance(c[1], L):
                return c[1]          # low part, little endian (value is taken modulo 2^w)
            # inside a wider cell
            for k in range(1, 8):
                c = r.cells.get(off.c - k)
                if c is not None:
                    if c[0] >= k + size and isinstance(c[1], L):
                        q = s.shr(st, s.to_u(st, c[1], c[0] * 8), 8 * k)
                        return q
                    break
            if size > 1 and ty.k == 'int':
                k = 0
                e = L(0)
                while k < size:
                    c = r.cells.get(off.c + k)
                    if c is not None and c[0] <= size - k and isinstance(c[1], L):
                        e = e + s.to_u(st, c[1], 8 * c[0]).scale(1 << (8 * k))
                        k += c[0]
                    else:
                        break
                if k == size:
                    return e
        elif r.const and r.kind == 'global':
            return s.table_load(st, r, off, size, ty)
        # symbolic cells / segments
        for g in r.segs:
            if cs.prove(off - g[0]) and cs.prove(g[0] + g[1] - off - size):
                return s.seg_value(st, g, off, size, ty)
        # membership in a segment undecided: partition
        for g in r.segs:
            if cs.prove(g[0] - off - size) or cs.prove(off - g[0] - g[1]):
                continue
            if not cs.prove(off - g[0]):
                if cs.feasible_with([off - g[0]]) and cs.feasible_with([g[0] - off - 1]):
                    raise Fork([[('ge', off - g[0])], [('ge', g[0] - off - 1)]])
            c = g[0] + g[1] - off - size
            if not cs.prove(c) and cs.feasible_with([c]) and cs.feasible_with([-c - 1]):
                raise Fork([[('ge', c)], [('ge', -c - 1)]])
        # anything possibly overlapping?
        if r.default in ('zero', 'lazy'):
            ov = False
            for g in r.segs:
                if not (cs.prove(off - g[0] - g[1]) or cs.prove(g[0] - off - size)):
                    ov = True
                    break
            if not ov:
                for o, c in r.cells.items():
                    if off.isconst():
                        if o < off.c + size and off.c < o + c[0]:
                            ov = True
                            break
                    elif not (cs.prove(off - o - c[0]) or cs.prove(L(o) - off - size)):
                        ov = True
                        break
            if not ov:
                if r.default == 'zero':
                    return NULL if ty.k == 'ptr' else (L(0) if ty.k == 'int' else Opaque('float'))
                if off.isconst():
                    v = s.lazy_value(st, r, off.c, size, ty)
                    r2 = st.w(r.id)
                    r2.cells[off.c] = (size, v)
                    return v
        v = s.fresh_for(ty, 'm_' + str(r.name))
        return v

    def lazy_value(s, st, r, off, size, ty):
        nm = '%s.%s' % (r.name, s.field_name(r, off))
        if ty.k == 'int':
            return SYM.sym(nm, 0, (1 << ty.n) - 1)
        return Opaque('ptr:' + nm)

    def seg_value(s, st, g, off, size, ty):
        start, ln, src = g
        rel = off - start
        if src[0] == 'val':
            if src[1] == size and st.cs.prove_eq(off, start):
                return src[2]
            return s.fresh_for(ty, 'part')
        if src[0] == 'zero':
            return L(0) if ty.k == 'int' else NULL
        if src[0] == 'str' and ty.k == 'int':
            e = L(0)
            for k in range(size):
                e = e + s.byte(st, src[1], src[2] + rel + k).scale(1 << (8 * k))
            return e
        if src[0] == 'snap':
            o = st.cs.norm(src[2] + rel)
            if o.isconst():
                c = SNAPS[src[1]].get(o.c)
                if c is not None and c[0] == size:
                    return c[1]
        return s.fresh_for(ty, 'seg')

    def byte(s, st, sid, pos):
        pos = st.cs.norm(pos)
        return SYM.term(('byte', sid, pos.key()), 'B_%s[%r]' % (sid if isinstance(sid, str) else sid[0], pos), 0, 255)

    def table_load(s, st, r, off, size, ty):
        """load at a symbolic index of a constant table: partition the index range into
        intervals on which the entry is an affine function of the index"""
        if not off.d:
            return s.fresh_for(ty, 'tab')
        if len(off.d) == 1:
            (k, stride), = off.d.items()
            X = {k: 1}
            lo, hi = st.cs.bounds1(k)
        else:
            stride = 0
            for c in off.d.values():
                stride = math.gcd(stride, c)
            X = {k: c // stride for k, c in off.d.items()}
            lo, hi = st.cs.interval(L(0, X))
        if lo is None or hi is None or hi - lo > 4096:
            return s.fresh_for(ty, 'tab')
        vals = []
        for i in range(lo, hi + 1):
            o = off.c + stride * i
            c = r.cells.get(o)
            if c is None:
                v = NULL if ty.k == 'ptr' else L(0)
            elif c[0] == size:
                v = c[1]
            else:
                return s.fresh_for(ty, 'tab')
            vals.append(v)
        runs = []
        i = 0
        n = len(vals)
        while i < n:
            if not isinstance(vals[i], L) or not vals[i].isconst():
                runs.append((i, i, None))
                i += 1
                continue
            j = i
            d = None
            while j + 1 < n and isinstance(vals[j + 1], L):
                dd = vals[j + 1].c - vals[j].c
                if d is None:
                    d = dd
                if dd != d:
                    break
                j += 1
            # a run of two points is always affine; prefer constant runs
            if j == i + 1 and d != 0:
                j = i
                d = 0
            runs.append((i, j, d or 0))
            i = j + 1
        if len(runs) == 1:
            i, j, d = runs[0]
            if d is None:
                return vals[0]
            return L(vals[0].c) + L(-lo * d, {k: c * d for k, c in X.items()} if d else {})
        alts = []
        for i, j, d in runs:
            a = L(-(lo + i), X)
            b = L(lo + j, {k: -c for k, c in X.items()})
            if len(X) > 1 and st.cs.prove(a) and st.cs.prove(b):
                if d is None:
                    return vals[i]
                return L(vals[i].c - (lo + i) * d, {k: c * d for k, c in X.items()} if d else {})
            if st.cs.feasible_with([a, b]):
                alts.append([('ge', a), ('ge', b)])
        if not alts:
            st.cs.dead = True
            return L(0)
        raise Fork(alts)

    def store(s, st, p, size, v, ins=None):
        if not s.check_access(st, p, size, True, ins):
            return
        off = st.cs.norm(p.o)
        if s.store_hook is not None:
            s.store_hook(st, p, size, v, ins)
        rid, off = s.redirect(st, p.r, off, size)
        s.store_raw(st, rid, off, size, v)

    def store_raw(s, st, rid, off, size, v):
        r = st.w(rid)
        if r.segs:
            s.clear_segs(st, r, off, L(size))
        if off.isconst():
            for o in [o for o in range(off.c - 15, off.c + size) if o in r.cells and o + r.cells[o][0] > off.c]:
                del r.cells[o]
            r.cells[off.c] = (size, v)
        else:
            cs = st.cs
            for o in list(r.cells):
                c = r.cells[o]
                if not (cs.prove(off - o - c[0]) or cs.prove(L(o) - off - size)):
                    s.kill_cell(st, r, o)
            r.segs = r.segs + ((off, L(size), ('val', size, v)),)
            if len(r.segs) > 40:
                r.segs = r.segs[-40:]
                if r.default == 'zero':
                    r.default = 'undef'

    def kill_cell(s, st, r, o):
        """possibly overwritten cell"""
        c = r.cells[o]
        if isinstance(c[1], L):
            r.cells[o] = (c[0], SYM.sym('k', 0, (1 << (8 * c[0])) - 1))
        else:
            r.cells[o] = (c[0], Opaque('k'))

    def clear_segs(s, st, r, off, n):
        """remove [off,off+n) from the segments of r"""
        cs = st.cs
        out = []
        end = off + n
        for g in r.segs:
            a, ln, src = g
            b = a + ln
            if cs.prove(off - b) or cs.prove(a - end):
                out.append(g)
                continue
            if cs.prove(off - a) and not cs.prove(a - off):
                if src[0] != 'val':
                    out.append((a, off - a, src))
            if cs.prove(b - end) and not cs.prove(end - b):
                if src[0] != 'val':
                    out.append((end, b - end, s.src_shift(src, end - a)))
        r.segs = tuple(out)

    def src_shift(s, src, k):
        if src[0] in ('str', 'snap'):
            return (src[0], src[1], src[2] + k)
        return src

    def read_content(s, st, rid, off, n):
        """description of [off,off+n) of region rid as list of (len, src); may Fork"""
        cs = st.cs
        off = cs.norm(off)
        n = cs.norm(n)
        out = []
        if rid is None or rid not in st.mem:
            return [(n, ('unk',))]
        if off.isconst():
            rid2, off2 = s.redirect(st, rid, off, 1)
            rid, off = rid2, off2
        r = st.mem[rid]
        pos = off
        end = off + n
        guard = 0
        while True:
            guard += 1
            if guard > (400 if off.isconst() and n.isconst() else 30):
                out.append((end - pos, ('unk',)))
                break
            rem = cs.norm(end - pos)
            if cs.prove(-rem):
                break
            if not cs.prove(rem - 1):
                raise Fork([[('ge', rem - 1)], [('ge', -rem)]])
            # cells?
            pc = cs.norm(pos)
            if pc.isconst() and pc.c in r.cells:
                # contiguous run of cells from pos
                o = pc.c
                snap = {}
                while o in r.cells:
                    c = r.cells[o]
                    snap[o - pc.c] = c
                    o += c[0]
                    if rem.isconst() and o - pc.c >= rem.c:
                        break
                total = o - pc.c
                key = tuple(sorted((k, c[0], c[1] if not isinstance(c[1], L) else c[1].key()) if True else 0
                                   for k, c in snap.items()))
                sid = len(SNAPS)
                SNAPS[sid] = snap
                avail = L(total)
                src = ('snap', sid, L(0))
            else:
                hit = None
                for g in r.segs:
                    if cs.prove(pos - g[0]) and cs.prove(g[0] + g[1] - pos - 1):
                        hit = g
                        break
                if hit is None:
                    # maybe non-emptiness of a segment starting here is undecided
                    for g in r.segs:
                        if cs.prove_eq(pos, g[0]) and not cs.prove(-g[1]):
                            raise Fork([[('ge', g[1] - 1)], [('ge', -g[1])]])
                    if r.default == 'zero' and not r.segs and not r.cells:
                        out.append((rem, ('zero',)))
                        break
                    if r.default == 'zero' and pc.isconst() and rem.isconst():
                        # gap until next cell
                        nxt = [o for o in r.cells if o > pc.c]
                        gap = min([rem.c] + [o - pc.c for o in nxt])
                        out.append((L(gap), ('zero',)))
                        pos = pos + gap
                        continue
                    if r.default == 'lazy' and pc.isconst() and rem.isconst() and rem.c <= 64 and not r.segs:
                        pass
                    out.append((rem, ('unk',)))
                    break
                avail = hit[0] + hit[1] - pos
                src = s.src_shift(hit[2], pos - hit[0]) if hit[2][0] in ('str', 'snap') else hit[2]
            if cs.prove(avail - rem):
                out.append((rem, src))
                break
            if cs.prove(rem - avail):
                out.append((avail, src))
                pos = pos + avail
                continue
            raise Fork([[('ge', avail - rem)], [('ge', rem - avail - 1)]])
        return out

    def write_content(s, st, rid, off, pieces, n):
        cs = st.cs
        off = cs.norm(off)
        if off.isconst():
            rid, off = s.redirect(st, rid, off, 1)
        r = st.w(rid)
        if r.segs:
            s.clear_segs(st, r, off, n)
        end = off + n
        for o in list(r.cells):
            c = r.cells[o]
            if cs.prove(off - o - c[0]) or cs.prove(L(o) - end):
                continue
            if cs.prove(L(o) - off) and cs.prove(end - o - c[0]):
                del r.cells[o]
            else:
                s.kill_cell(st, r, o)
        pos = off
        segs = list(r.segs)
        for ln, src in pieces:
            p = cs.norm(pos)
            l2 = cs.norm(ln)
            if src[0] == 'snap' and p.isconst() and l2.isconst() and cs.norm(src[2]).isconst():
                base = cs.norm(src[2]).c
                for o, c in SNAPS[src[1]].items():
                    if base <= o and o + c[0] <= base + l2.c:
                        r.cells[p.c + o - base] = c
            elif src[0] == 'zero' and p.isconst() and l2.isconst() and r.default == 'zero':
                pass
            elif src[0] == 'unk':
                if r.default == 'zero' or r.default == 'lazy':
                    segs.append((p, l2, ('unk2',)))
            else:
                for gi, g in enumerate(segs):
                    if g[2][0] == src[0] and src[0] in ('str', 'snap') and g[2][1] == src[1] and \
                            cs.prove_eq(g[0] + g[1], p) and cs.prove_eq(g[2][2] + g[1], src[2]):
                        segs[gi] = (g[0], cs.norm(g[1] + l2), g[2])
                        break
                    if g[2][0] == src[0] == 'zero' and cs.prove_eq(g[0] + g[1], p):
                        segs[gi] = (g[0], cs.norm(g[1] + l2), g[2])
                        break
                else:
                    segs.append((p, l2, src))
            pos = pos + ln
        r.segs = tuple(segs)

    def copy_mem(s, st, dst, src, n, ins, move=False):
        """memcpy/memmove"""
        n = s.to_u(st, n, 64)
        cs = st.cs
        if cs.prove(-n):
            return
        if isinstance(src, Ptr) and src.r is not None and isinstance(dst, Ptr) and dst.r is not None:
            nn = cs.norm(n)
            pieces = None
            if nn.isconst() and st.mem[src.r].default == 'lazy' and cs.norm(src.o).isconst() and \
                    not st.mem[src.r].segs:
                pieces = s.lazy_pieces(st, src, nn.c)
            if pieces is None:
                pieces = s.read_content(st, src.r, src.o, n)   # may Fork: nothing mutated yet
        else:
            pieces = [(n, ('unk',))]
        ok1 = s.check_access(st, src, n, False, ins)
        if st.dead:
            return
        ok2 = s.check_access(st, dst, n, True, ins)
        if st.dead or not ok2:
            return
        if not move and isinstance(src, Ptr) and isinstance(dst, Ptr) and src.r == dst.r:
            cs = st.cs
            dis = cs.prove(src.o + n - 0 - dst.o - 0 - 0 - 0) is None
            dis = cs.prove(dst.o - src.o - n) or cs.prove(src.o - dst.o - n) or cs.prove_eq(src.o, dst.o)
            s.oblige(st, dis, s.tags_for('overlap'), 'overlapping memory copy within %s' % st.mem[src.r].name, ins,
                     rule='overlap')
        s.write_content(st, dst.r, dst.o, pieces, n)

    def lazy_pieces(s, st, src, n):
        """materialise lazily-initialised fields for whole-struct copies: unknown content"""
        return [(L(n), ('unk',))]

    def set_mem(s, st, dst, byte, n, ins):
        n = s.to_u(st, n, 64)
        if st.cs.prove(-n):
            return
        if not s.check_access(st, dst, n, True, ins) or st.dead:
            return
        off = st.cs.norm(dst.o)
        nn = st.cs.norm(n)
        r = st.w(dst.r)
        if byte == 0 and off == 0 and r.size is not None and st.cs.prove_eq(r.size, n):
            r.cells = {}
            r.segs = ()
            r.default = 'zero'
            for so, (sz, sid) in r.subs.items():
                q = st.w(sid)
                q.cells = {}
                q.segs = ()
                q.default = 'zero'
            return
        if byte == 0:
            if off.isconst():
                rid, off = s.redirect(st, dst.r, off, 1)
                r = st.w(rid)
            if r.default == 'zero' and off.isconst() and nn.isconst() and not r.segs:
                for o in list(r.cells):
                    if off.c <= o < off.c + nn.c:
                        del r.cells[o]
                return
            s.write_content(st, r.id, off, [(nn, ('zero',))], nn)
        else:
            s.write_content(st, dst.r, off, [(nn, ('unk',))], nn)

    # ---------------------------------------------------------------- instructions
    def step(s, st, ins):
        """execute a non-control, non-call instruction in place; may raise Fork"""
        op = ins.op
        if op == 'load':
            v = s.load(st, s.val(st, ins.a[0]), ins.ty, ins)
        elif op == 'store':
            x = s.val(st, ins.a[0], ins.ty)
            s.store(st, s.val(st, ins.a[1]), s.m.size(ins.ty), x, ins)
            return
        elif op == 'gep':
            v = s.gep(st, ins.x, s.val(st, ins.a[0][1]), [(t, s.val(st, x, t)) for t, x in ins.a[1:]])
        elif op == 'alloca':
            rid = s.new_region(st, 'stack', s.m.size(ins.ty), '%s:%%%s' % (ins.fn.src, ins.res),
                               structured=s.m.resolve(ins.ty).k == 'struct')
            v = Ptr(rid, L(0))
        elif op == 'icmp':
            v = s.icmp(st, ins)
        elif op in BIN:
            v = s.binop(st, ins)
        elif op in CAST:
            v = s.cast(st, ins)
        elif op == 'select':
            c = s.boolval(st, s.val(st, ins.a[0]))
            v = s.val(st, ins.a[1] if c else ins.a[2], ins.ty)
        elif op == 'fcmp':
            raise Fork([])
        elif op == 'fneg':
            v = Opaque('float')
        else:
            raise AnalysisError('unsupported instruction %s in %s' % (op, ins.fn.src))
        st.env[ins.res] = v

    def boolval(s, st, v):
        if not isinstance(v, L):
            b = SYM.sym('bool', 0, 1)
            raise AnalysisError('opaque condition')
        v = st.cs.norm(v)
        if v.isconst():
            return bool(v.c & 1)
        v = s.emod(st, v, 2)
        return not s.decide_eq(st, v)

    def icmp(s, st, ins):
        pred, ty = ins.x
        a = s.val(st, ins.a[0], ty)
        b = s.val(st, ins.a[1], ty)
        if ty.k == 'ptr' or isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return s.pcmp(st, pred, a, b, ins)
        if not isinstance(a, L) or not isinstance(b, L):
            x = SYM.sym('cmp', 0, 1)
            return x
        w = ty.n
        if pred in ('eq', 'ne'):
            e = st.cs.norm(a - b)
            if e.isconst():
                r = e.c % (1 << w) == 0
            else:
                # choose the interpretation that needs no split
                try:
                    x, y = s.to_u(st, a, w), s.to_u(st, b, w)
                except Fork as f1:
                    try:
                        x, y = s.to_s(st, a, w), s.to_s(st, b, w)
                    except Fork:
                        raise f1
                r = s.decide_eq(st, x - y)
            if pred == 'ne':
                r = not r
            return L(int(r))
        if pred[0] == 'u':
            x, y = s.to_u(st, a, w), s.to_u(st, b, w)
        else:
            x, y = s.to_s(st, a, w), s.to_s(st, b, w)
        p = pred[1:]
        if p == 'lt':
            e = y - x - 1
        elif p == 'le':
            e = y - x
        elif p == 'gt':
            e = x - y - 1
        else:
            e = x - y
        return L(int(s.decide(st, e)))

    def pcmp(s, st, pred, a, b, ins):
        if pred in ('eq', 'ne'):
            r = None
            if isinstance(a, Fn) or isinstance(b, Fn):
                if isinstance(a, Fn) and isinstance(b, Fn):
                    r = a == b
                elif isnull(a) or isnull(b):
                    r = False
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    r = s.decide_eq(st, a.o - b.o)
                else:
                    r = False
                    q = b if isnull(a) else a if isnull(b) else None
                    if q is not None and q.r is not None and st.mem[q.r].kind in ('in', 'out'):
                        # an empty caller buffer may be given as NULL
                        x = SYM.term(('nullbuf', q.r), 'nullbuf', 0, 1)
                        r = s.decide_eq(st, x - 1)
                        if r:
                            st.cs.add_ge0(-st.mem[q.r].size)
                            if st.cs.dead:
                                st.dead = True
                    elif q is not None and q.r is not None and st.mem[q.r].kind == 'scoop':
                        # the internal buffer is NULL exactly while nothing has been allocated for it
                        r = not s.decide(st, st.mem[q.r].size - 1)
            elif isinstance(a, Opaque) and isinstance(b, Opaque) and a is b:
                r = True
            if r is None:
                o = a if isinstance(a, Opaque) else b
                other = b if o is a else a
                # opaque pointer compared (usually with null): remember the outcome per object
                key = ('isnull', id(o)) if isnull(other) else ('peq', id(o), id(other) if isinstance(other, Opaque) else
                                                               (other.r, st.cs.norm(other.o).key()) if isinstance(other, Ptr) else other)
                KEEP.append(o)
                KEEP.append(other)
                x = SYM.term(key, 'peq', 0, 1)
                r = not s.decide_eq(st, x)
                # x==1 means equal
            return L(int(r if pred == 'eq' else not r))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            x, y = a.o, b.o
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            x, y = s.addr_of(st, a), s.addr_of(st, b)
        else:
            x, y = SYM.sym('pa', 0, MAXOBJ), SYM.sym('pb', 0, MAXOBJ)
        p = pred[1:]
        e = {'lt': y - x - 1, 'le': y - x, 'gt': x - y - 1, 'ge': x - y}[p]
        return L(int(s.decide(st, e)))

    def binop(s, st, ins):
        op = ins.op
        ty = ins.ty
        if ty.k != 'int':
            return Opaque('float')
        a = s.val(st, ins.a[0], ty)
        b = s.val(st, ins.a[1], ty)
        if s.powers is not None and (isinstance(a, Ptr) or isinstance(b, Ptr)):
            r = s.powers(st, op, a, b, ty.n)
            if r is not None:
                return r
        if not isinstance(a, L) or not isinstance(b, L):
            return SYM.sym('ptrop', 0, (1 << ty.n) - 1)
        return s.ibin(st, op, a, b, ty.n, ins)

    def ibin(s, st, op, a, b, w, ins=None):
        M = 1 << w
        cs = st.cs
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        a = cs.norm(a)
        b = cs.norm(b)
        if op == 'mul':
            r = mul(a, b)
            if len(r.d) > 40:
                return s.unint(st, 'mul', a, b, w)
            return r
        if op in ('shl', 'lshr', 'ashr') and not b.isconst():
            lo, hi = cs.interval(b)
            if lo is not None and hi is not None and 0 <= lo <= hi <= lo + 7:
                raise Fork([[('eq', b - k)] for k in range(lo, hi + 1)])
        if op == 'shl':
            if b.isconst():
                return a.scale(1 << b.c) if b.c < w else L(0)
            return s.unint(st, 'shl', a, b, w)
        if op in ('lshr', 'ashr'):
            if b.isconst():
                x = s.to_u(st, a, w) if op == 'lshr' else s.to_s(st, a, w)
                return s.shr(st, x, b.c)
            r = s.unint(st, op, a, b, w)
            if op == 'lshr':
                st.cs.add_ge0(s.to_u(st, a, w) - r)
            return r
        if op in ('udiv', 'urem'):
            x = s.to_u(st, a, w)
            y = s.to_u(st, b, w)
            if y.isconst():
                if y.c == 0:
                    return SYM.sym('div0', 0, M - 1)
                q, r = s.divmod(st, x, y.c)
                return q if op == 'udiv' else r
            return s.divsym(st, x, y, w, op == 'udiv', ins)
        if op in ('sdiv', 'srem'):
            x = s.to_s(st, a, w)
            y = s.to_s(st, b, w)
            if y.isconst() and y.c > 0:
                if s.decide(st, x):
                    q, r = s.divmod(st, x, y.c)
                    return q if op == 'sdiv' else r
                q, r = s.divmod(st, -x, y.c)
                return -q if op == 'sdiv' else -r
            if cs.prove(x) and cs.prove(y - 1):
                return s.divsym(st, x, y, w, op == 'sdiv', ins)
            return SYM.sym(op, -(M >> 1), (M >> 1) - 1)
        if op == 'and':
            if a.isconst() and not b.isconst():
                a, b = b, a
            if b.isconst():
                if a.isconst():
                    return L((a.c % M) & (b.c % M))
                return s.andmask(st, a, b.c % M, w)
            if cs.norm(a - b).isconst() and cs.norm(a - b).c == 0:
                return a
            x, y = s.to_u(st, a, w), s.to_u(st, b, w)
            # a & (2^k-1 as symbolic): result between 0 and both operands
            r = s.unint(st, 'and', x, y, w)
            st.cs.add_ge0(x - r)
            st.cs.add_ge0(y - r)
            return r
        if op == 'or':
            if a.isconst() and b.isconst():
                return L((a.c % M) | (b.c % M))
            if a == 0:
                return b
            if b == 0:
                return a
            for x, y in ((a, b), (b, a)):
                t = min([tz(v) for v in x.d.values()] + [tz(x.c)])
                if t > 0:
                    if t >= w:
                        return y
                    lo, hi = cs.interval(y)
                    if lo is not None and hi is not None and lo >= 0 and hi < (1 << t):
                        return x + y
                    if t < w and cs.prove(y) and cs.prove(L((1 << t) - 1) - y):
                        return x + y
            r = s.unint(st, 'or', s.to_u(st, a, w), s.to_u(st, b, w), w)
            st.cs.add_ge0(r - s.to_u(st, a, w))
            st.cs.add_ge0(r - s.to_u(st, b, w))
            return r
        if op == 'xor':
            if a.isconst() and b.isconst():
                return L((a.c % M) ^ (b.c % M))
            if w == 1:
                o = b if a.isconst() else a
                k = a.c if a.isconst() else (b.c if b.isconst() else None)
                if k is not None:
                    o = s.emod(st, o, 2)
                    return o if k % 2 == 0 else L(1) - o
            if b == 0:
                return a
            if a == 0:
                return b
            if b.isconst() and b.c % M == M - 1:
                return L(-1) - a
            if a.isconst() and a.c % M == M - 1:
                return L(-1) - b
            if (a - b).isconst() and (a - b).c == 0:
                return L(0)
            return s.unint(st, 'xor', s.to_u(st, a, w), s.to_u(st, b, w), w)
        raise AnalysisError('binop ' + op)

    def andmask(s, st, a, mask, w):
        M = 1 << w
        if mask == 0:
            return L(0)
        if mask == M - 1:
            return a
        # contiguous run of ones [lo,hi)
        lo = tz(mask)
        m2 = mask >> lo
        if m2 & (m2 + 1) == 0:
            hi = lo + m2.bit_length()
            if hi >= w:
                return a - s.emod(st, a, 1 << lo)
            x = s.emod(st, a, 1 << hi)
            if lo == 0:
                return x
            return x - s.emod(st, x, 1 << lo)
        # decompose into runs
        r = L(0)
        bit = 0
        while mask >> bit:
            if (mask >> bit) & 1:
                e = bit
                while (mask >> e) & 1:
                    e += 1
                r = r + s.andmask(st, a, ((1 << e) - 1) ^ ((1 << bit) - 1), w)
                bit = e
            else:
                bit += 1
        return r

    def unint(s, st, op, a, b, w):
        a = st.cs.norm(a)
        b = st.cs.norm(b)
        ka, kb = a.key(), b.key()
        if op in ('and', 'or', 'xor', 'mul') and kb < ka:
            ka, kb = kb, ka
        return SYM.term((op, w, ka, kb), op, 0, (1 << w) - 1)

    def divsym(s, st, x, y, w, quo, ins):
        cs = st.cs
        if not cs.prove(y - 1):
            if cs.prove(-y):
                return SYM.sym('div0', 0, (1 << w) - 1)
            raise Fork([[('ge', y - 1)], [('eq', y)]])
        x = cs.norm(x)
        y = cs.norm(y)
        lo, hi = cs.interval(x)
        q = SYM.term(('sdivq', x.key(), y.key()), 'quot', 0, (1 << w) - 1)
        if hi is not None:
            cs.add_ge0(L(hi) - q)
        qy = mul(q, y)
        cs.add_ge0(x - qy)
        cs.add_ge0(qy + y - 1 - x)
        cs.add_ge0(x - q)
        return q if quo else x - qy

    def cast(s, st, ins):
        op = ins.op
        v = s.val(st, ins.a[0], ins.x)
        t2 = ins.ty
        t1 = ins.x
        if op in ('bitcast', 'freeze'):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr):
                return s.addr_of(st, v)
            return SYM.sym('pint', 0, (1 << 64) - 1)
        if op == 'inttoptr':
            if isinstance(v, L) and st.cs.norm(v) == 0:
                return NULL
            return Opaque('inttoptr')
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            return Opaque('float')
        if op in ('fptosi', 'fptoui'):
            return SYM.sym('fp', -(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1)
        if not isinstance(v, L):
            return SYM.sym('cast', 0, (1 << t2.n) - 1)
        if op == 'trunc':
            if t2.n == 1:
                return s.emod(st, v, 2)
            return v
        if op == 'zext':
            if t1.n == 1:
                v = st.cs.norm(v)
                return L(v.c & 1) if v.isconst() else s.emod(st, v, 2)
            return s.to_u(st, v, t1.n)
        if op == 'sext':
            if t1.n == 1:
                v = st.cs.norm(v)
                return L(-(v.c & 1)) if v.isconst() else -s.emod(st, v, 2)
            return s.to_s(st, v, t1.n)
        raise AnalysisError('cast ' + op)

    # ---------------------------------------------------------------- control
    def apply_alt(s, st, alt):
        for k, e in alt:
            if k == 'ge':
                st.cs.add_ge0(e)
            else:
                st.cs.add_eq0(e)
            if st.cs.dead:
                return False
        return st.cs.feasible_with([e for k, e in alt if k == 'ge']) and not st.cs.dead

    def fork(s, st, f, ins):
        out = []
        for alt in f.alts:
            t = st.copy()
            if s.apply_alt(t, alt):
                if ins is not None and len(f.alts) > 1:
                    t.note('%s:%d %s' % (ins.fn.src, ins.line, ' & '.join(
                        '%r%s' % (e, '>=0' if k == 'ge' else '==0') for k, e in alt)))
                out.append(t)
        return out

    def run(s, st, fn, blk, prev, loop, first=True):
        """explore from the start of blk until control leaves `loop` (or the function).
        returns list of ('exit',blk,prev,st) ('back',prev,st) ('ret',val,st)"""
        loops = find_loops(fn)
        outs = []
        work = [(st, blk, prev, None, True)]
        while work:
            if len(work) > s.max_states or len(outs) > s.max_states * 2:
                raise AnalysisError('state explosion in %s' % fn.src)
            st, blk, prev, ip, start = work.pop()
            if ip is None:
                ip = 0
                if loop is not None:
                    if blk not in loop.blocks:
                        outs.append(('exit', blk, prev, st))
                        continue
                    if blk == loop.header and not start:
                        outs.append(('back', prev, st))
                        continue
                lp = loops.get(blk)
                if lp is not None and (loop is None or lp is not loop):
                    for o in s.run_loop(st, fn, lp, prev):
                        if o[0] == 'exit':
                            # o[1] may itself be outside the current loop
                            work.append((o[3], o[1], o[2], None, False))
                        else:
                            outs.append(o)
                    continue
                if not (start and loop is not None):
                    s.phis(st, fn, blk, prev)
            body = fn.blocks[blk]
            n = len(body)
            while ip < n:
                ins = body[ip]
                op = ins.op
                s.cov['steps'] += 1
                if s.cov['steps'] > s.budget:
                    raise AnalysisError('analysis budget exceeded in %s' % fn.src)
                if op == 'phi':
                    ip += 1
                    continue
                try:
                    if op == 'call':
                        res = s.call_ins(st, ins)
                        nxt = []
                        for st2, v in res:
                            if st2.dead or st2.cs.dead:
                                continue
                            if ins.res is not None:
                                st2.env[ins.res] = v
                            nxt.append(st2)
                        if not nxt:
                            break
                        st = nxt[0]
                        for x in nxt[1:]:
                            work.append((x, blk, prev, ip + 1, False))
                        ip += 1
                        continue
                    if op == 'br':
                        work.append((st, ins.a[0], blk, None, False))
                        break
                    if op == 'cbr':
                        c = s.boolval(st, s.val(st, ins.a[0]))
                        work.append((st, ins.a[1] if c else ins.a[2], blk, None, False))
                        break
                    if op == 'switch':
                        tgt = s.switch(st, ins)
                        work.append((st, tgt, blk, None, False))
                        break
                    if op == 'ret':
                        v = s.val(st, ins.a[0], ins.ty) if ins.a else None
                        outs.append(('ret', v, st))
                        if not s.mute:
                            s.cov['paths'] += 1
                        break
                    if op == 'unreachable':
                        break
                    s.step(st, ins)
                    if st.dead or st.cs.dead:
                        break
                    ip += 1
                except Fork as f:
                    if not f.alts:
                        raise AnalysisError('floating-point branch in %s' % fn.src)
                    for t in s.fork(st, f, ins):
                        work.append((t, blk, prev, ip, False))
                    break
        return outs

    def phis(s, st, fn, blk, prev):
        vals = []
        for ins in fn.blocks[blk]:
            if ins.op != 'phi':
                break
            for v, l in ins.a:
                if l == prev:
                    vals.append((ins.res, s.val(st, v, ins.ty)))
                    break
            else:
                raise AnalysisError('phi without predecessor')
        for r, v in vals:
            st.env[r] = v

    def switch(s, st, ins):
        v = s.val(st, ins.a[0], ins.ty)
        w = ins.ty.n
        M = 1 << w
        e = st.cs.norm(v)
        cases = ins.a[2]
        if e.isconst():
            for c, l in cases:
                if (c - e.c) % M == 0:
                    return l
            return ins.a[1]
        # use the interpretation (signed/unsigned) that is canonical
        lo, hi = st.cs.interval(e)
        if lo is not None and lo < 0:
            e = s.to_s(st, e, w)
            cv = [(((c + M // 2) % M) - M // 2, l) for c, l in cases]
        else:
            e = s.to_u(st, e, w)
            cv = [(c % M, l) for c, l in cases]
        cv.sort()
        for c, l in cv:
            if st.cs.prove_eq(e, L(c)):
                return l
        poss = [(c, l) for c, l in cv if st.cs.feasible_with([e - c, L(c) - e])]
        if not poss:
            return ins.a[1]
        alts = [[('eq', e - c)] for c, l in poss]
        prevc = None
        for c, l in poss:
            a = []
            if prevc is not None:
                a.append(('ge', e - prevc - 1))
            a.append(('ge', L(c - 1) - e))
            if prevc is None or prevc < c - 1:
                alts.append(a)
            prevc = c
        alts.append([('ge', e - prevc - 1)])
        alts = [a for a in alts if st.cs.feasible_with([x for k, x in a if k == 'ge'])]
        if len(alts) == 1 and alts[0][0][0] == 'ge':
            return ins.a[1]
        raise Fork(alts)

    # ---------------------------------------------------------------- calls
    def call_ins(s, st, ins):
        callee = s.val(st, ins.x)
        args = [s.val(st, v, t) if t.k != 'metadata' else None for t, v in ins.a]
        if isinstance(callee, Fn):
            f = s.m.funcs[callee.name]
            return s.call(st, f, args, ins)
        # unknown function pointer
        if s.callback is not None:
            r = s.callback(s, st, callee, args, ins)
            if r is not None:
                return r
        s.oblige(st, not isnull(callee), s.tags_for('null'), 'call through null function pointer', ins, rule='null')
        raise AnalysisError('indirect call through unknown pointer %r in %s:%d' % (callee, ins.fn.src, ins.line))

    def call(s, st, f, args, ins=None):
        s.cov['calls'] += 1
        sm = s.summaries.get(f.src)
        if sm is not None:
            r = sm(s, st, args, ins, f)
            if r is not None:
                return r
        if f.decl:
            md = s.models.get(f.name)
            if md is None:
                nm = f.name
                if nm.startswith('llvm.'):
                    for k, v in s.models.items():
                        if k.startswith('llvm.') and nm.startswith(k):
                            md = v
                            break
            if md is None:
                return s.unknown_call(st, f, args, ins)
            return md(s, st, args, ins, f)
        return s.call_body(st, f, args, ins)

    def call_body(s, st, f, args, ins=None):
        s.depth += 1
        if s.depth > 60:
            raise AnalysisError('recursion too deep at %s' % f.src)
        if not s.mute:
            s.cov['functions'][f.src] = s.cov['functions'].get(f.src, 0) + 1
        st.stack.append(st.env)
        st.env = {}
        for (t, nm), a in zip(f.params, args):
            st.env[nm] = a
        outs = s.run(st, f, f.order[0], None, None)
        res = []
        for o in outs:
            assert o[0] == 'ret'
            t = o[2]
            t.env = dict(t.stack.pop())
            res.append((t, o[1]))
        s.depth -= 1
        return res

    def unknown_call(s, st, f, args, ins):
        s.cov.setdefault('unmodelled', {})[f.name] = 1
        # conservative: havoc memory reachable from pointer arguments
        for a in args:
            if isinstance(a, Ptr) and a.r is not None:
                r = st.w(a.r)
                if not r.const:
                    for o in list(r.cells):
                        s.kill_cell(st, r, o)
                    r.segs = ()
        if f.ret.k == 'void':
            return [(st, None)]
        return [(st, s.fresh_for(f.ret, f.name))]

    # ---------------------------------------------------------------- loops
    def run_loop(s, st, fn, lp, prev):
        # try bounded unrolling
        s.phis_enter(st, fn, lp, prev)
        if s.part is not None and s.part[0](fn, lp):
            import absdom
            return absdom.part_loop(s, st, fn, lp, *s.part[1:])
        save = st.copy()
        nviol = (list(s.violations), set(s.vkeys), dict(s.cov), dict(s.cov['functions']), dict(s.bt))
        cur = [st]
        exits = []
        forks = 0
        it = 0
        ok = True
        while cur:
            it += 1
            nxt = []
            for x in cur:
                outs = s.run(x, fn, lp.header, None, lp)
                nb = [o for o in outs if o[0] == 'back']
                ne = [o for o in outs if o[0] != 'back']
                exits += ne
                if nb and ne:
                    forks += 1
                for o in nb:
                    t = o[2]
                    s.phis(t, fn, lp.header, o[1])
                    nxt.append(t)
            cur = nxt
            if cur and (it >= s.unroll_max or forks > s.unroll_forks or len(cur) > s.unroll_width):
                ok = False
                break
        if ok:
            if not s.mute:
                s.cov['loops_unrolled'] += 1
            return exits
        # restore report state and use invariants
        s.violations, s.vkeys = nviol[0], nviol[1]
        fns = s.cov['functions']
        steps = s.cov['steps']
        s.cov = nviol[2]
        s.cov['functions'] = nviol[3]
        s.bt = nviol[4]
        s.cov['steps'] = steps
        return s.loop_invariant(save, fn, lp)

    def phis_enter(s, st, fn, lp, prev):
        s.phis(st, fn, lp.header, prev)

    def loop_invariant(s, st0, fn, lp):
        phis = [i.res for i in fn.blocks[lp.header] if i.op == 'phi']
        if s.fold is not None:
            s.fold(s, st0, 'loop', None)

        def body(g):
            outs = s.run(g, fn, lp.header, None, lp)
            backs = []
            exits = []
            for o in outs:
                if o[0] == 'back':
                    t = o[2]
                    s.phis(t, fn, lp.header, o[1])
                    if s.fold is not None:
                        s.fold(s, t, 'loop', None)
                    backs.append(t)
                else:
                    exits.append(o)
            return backs, exits

        envw = {i.res: i.ty.n for i in fn.blocks[lp.header] if i.op == 'phi' and i.ty.k == 'int' and i.ty.n >= 8}
        ring = {}
        if s.ring is not None:
            ring = {x: w for x, w in envw.items() if not s.compared(fn, x)}
            envw = {x: w for x, w in envw.items() if x not in ring}

        def rankit(g, backs, locs, h):
            import rank
            nodes = {0: {lc: s.num(h[lc]) for lc in locs if s.num(h[lc]) is not None}}
            edges = [(0, 0, u.cs, {lc: s.num(s.getloc(u, lc)) for lc in nodes[0]}) for u in backs]
            s.ranked(fn, lp, rank.terminates(nodes, edges), backs)
        exits = s.infer(st0, body, envlocs=phis, what='%s loop at block %s' % (fn.src, lp.header), envw=envw, rankit=rankit, ring=ring)
        if not s.mute:
            s.cov['loops_inv'] += 1
        return exits

    # ---- inductive invariant inference
    def infer(s, st0, body, envlocs=(), what='', regions=None, extra=None, envw={}, rankit=None, ring={}):
        """st0: state at head. body(state)->(backs, exits). Returns exits of the stable pass.
        regions: restrict memory locations to these region ids (None = all in st0)"""
        memlocs = set()
        ghostlocs = set()
        dropseg = set()
        cspace = None
        cands = []          # list of (kind, data): inequalities over locations
        dropped = set()
        if regions is None:
            regions = list(st0.mem)
        rounds = 0
        rep = {}
        body0 = body
        for x, w in envw.items():
            v = st0.env.get(x)
            if isinstance(v, L):
                if st0.cs.prove(v) and st0.cs.prove(L((1 << w) - 1) - v):
                    rep[x] = 'u'
                elif st0.cs.prove(v + (1 << (w - 1))) and st0.cs.prove(L((1 << (w - 1)) - 1) - v):
                    rep[x] = 's'

        def body(g):
            """body with loop-carried integers brought back to their canonical representative"""
            backs, exits = body0(g)
            out = []
            for t in backs:
                work = [t]
                while work:
                    u = work.pop()
                    try:
                        for x, w in ring.items():
                            if isinstance(u.env.get(x), L):
                                u.env[x] = residue(u.cs.norm(u.env[x]), w)
                        if s.ring is not None:
                            for x, w in s.ring.items():
                                if x in u.ghost:
                                    u.ghost[x] = residue(u.cs.norm(u.ghost[x]), w)
                        for x, r in rep.items():
                            v = u.env.get(x)
                            if not isinstance(v, L):
                                continue
                            w = envw[x]
                            if r == 'u':
                                if not u.cs.prove(v) and u.cs.prove(v + (1 << (w - 1))) and \
                                        u.cs.prove(L((1 << (w - 1)) - 1) - v):
                                    raise Resign(x)
                                u.env[x] = s.to_u(u, v, w)
                            else:
                                u.env[x] = s.to_s(u, v, w)
                        out.append(u)
                    except Fork as f:
                        work += s.fork(u, f, None)
            return out, exits
        base_templates = s.loop_templates
        while True:
            rounds += 1
            if rounds > 40:
                raise AnalysisError('no inductive invariant found for ' + what)
            locs = [('e', x) for x in envlocs] + sorted([('m',) + x for x in memlocs], key=repr) + \
                sorted(('g', x) for x in ghostlocs)
            # ---- build generalised state
            g = st0.copy()
            h = {}
            e0 = {}
            for lc in locs:
                v0 = s.getloc(st0, lc)
                hv = s.havoc_value(st0, v0, lc, rounds)
                if lc[0] == 'e' and lc[1] in rep:
                    w = envw[lc[1]]
                    nm = 'h_' + str(lc[1])
                    hv = SYM.sym(nm, 0, (1 << w) - 1) if rep[lc[1]] == 'u' else \
                        SYM.sym(nm, -(1 << (w - 1)), (1 << (w - 1)) - 1)
                h[lc] = hv
                e0[lc] = v0
                s.setloc(g, lc, hv)
            for rid in dropseg:
                if rid in g.mem:
                    g.w(rid).segs = ()
                    for so, (sz, sid) in g.mem[rid].subs.items():
                        pass
            ints = [lc for lc in locs if s.num(e0[lc]) is not None and s.num(h[lc]) is not None]
            if cspace is None:
                basis = [{lc: 1} for lc in ints]
            else:
                basis = [b for b in cspace]
                # newly added locations start fully related
                known = set(seen_locs)
                for lc in ints:
                    if lc not in known:
                        basis.append({lc: 1})
                basis = [b for b in basis if all(lc in h for lc in b)]
            seen_locs = list(ints)
            eqs = []
            for b in basis:
                e = L(0)
                for lc, c in b.items():
                    e = e + (s.num(h[lc]) - s.num(e0[lc])).scale(c)
                eqs.append(e)
                g.cs.add_eq0(e)
            # candidate inequalities
            def cand_list(state, hv):
                out = []
                for lc in ints:
                    x = s.num(hv[lc])
                    a = s.num(e0[lc])
                    out.append((('nn', lc), x))
                    out.append((('ge0', lc), x - a))
                    out.append((('le0', lc), a - x))
                for key, coef, cst in cands:
                    e = cst
                    for lc, c in coef.items():
                        e = e + s.num(hv[lc]).scale(c)
                    out.append((key, e))
                for i, tpl in enumerate(base_templates):
                    for j, e in enumerate(tpl(s, state)):
                        if e is not None:
                            out.append((('tpl', i, j), e))
                if extra is not None:
                    for j, e in enumerate(extra(s, state)):
                        if e is not None:
                            out.append((('x', j), e))
                return out
            cands = [c for c in cands if all(lc in h and lc in ints for lc in c[1])]
            init = {}
            for key, e in cand_list(st0, e0):
                if key not in dropped:
                    if st0.cs.prove(e):
                        init[key] = True
                    else:
                        dropped.add(key)
            for key, e in cand_list(g, h):
                if key in init and key not in dropped:
                    g.cs.add_ge0(e)
            if g.cs.dead:
                raise AnalysisError('inconsistent generalisation in ' + what)
            # ---- run the body
            s.mute += 1
            hv_old = s.harvest
            s.harvest = []
            gg = g.copy()
            resign = None
            try:
                backs, exits = body(gg)
            except Resign as x:
                resign = x.x
            finally:
                s.mute -= 1
                harvested = s.harvest
                s.harvest = hv_old
            if resign is not None:
                rep[resign] = 's'
                v0 = st0.env[resign]
                w = envw[resign]
                if not st0.cs.prove(L((1 << (w - 1)) - 1) - v0):
                    del rep[resign]
                cspace = None
                continue
            changed = False
            if hv_old is not None:
                hv_old.extend(harvested)
            # ---- new modified locations
            for t in backs:
                for rid in regions:
                    if rid not in g.mem:
                        continue
                    ra = g.mem[rid]
                    rb = t.mem.get(rid)
                    if rb is ra or rb is None:
                        continue
                    if rb.freed != ra.freed:
                        raise AnalysisError('object %s freed inside %s' % (ra.name, what))
                    for o in set(ra.cells) | set(rb.cells):
                        ca = ra.cells.get(o)
                        cb = rb.cells.get(o)
                        if ('m', rid, o) in h:
                            continue
                        if ca is None or cb is None or ca[0] != cb[0]:
                            if ca is None and ra.default == 'lazy' and cb is not None:
                                # lazily materialised value in the body: materialise it in st0 too
                                c0 = st0.mem[rid].cells.get(o)
                                if c0 is None:
                                    st0.w(rid).cells[o] = cb if s.symonly(cb[1]) else (cb[0], s.relazy(ra, o, cb))
                                    changed = True
                                    continue
                            if ca is None and ra.default == 'zero' and cb is not None:
                                st0.w(rid).cells[o] = (cb[0], L(0) if isinstance(cb[1], L) else NULL)
                                memlocs.add((rid, o))
                                changed = True
                                continue
                            # introduced cell in undefined memory: forget it
                            if ca is None and ra.default == 'undef':
                                st0.w(rid).cells[o] = (cb[0], SYM.sym('u', 0, (1 << (8 * cb[0])) - 1)
                                                       if isinstance(cb[1], L) else cb[1])
                                memlocs.add((rid, o))
                                changed = True
                                continue
                            if rid not in dropseg:
                                dropseg.add(rid)
                                changed = True
                            continue
                        if not s.same(t, ca[1], cb[1]):
                            memlocs.add((rid, o))
                            changed = True
                    if rb.segs != ra.segs and rid not in dropseg:
                        if not s.same_segs(t, ra.segs, rb.segs):
                            dropseg.add(rid)
                            changed = True
                for k in set(g.ghost) | set(t.ghost):
                    if ('g', k) in h:
                        continue
                    if k not in g.ghost or k not in t.ghost or not s.same(t, g.ghost[k], t.ghost[k]):
                        if k in g.ghost and k in t.ghost and s.num(g.ghost[k]) is not None and \
                                s.num(t.ghost[k]) is not None:
                            ghostlocs.add(k)
                            changed = True
                        else:
                            raise AnalysisError('ghost %s changes shape in %s: %r -> %r' % (
                                k, what, g.ghost.get(k), t.ghost.get(k)))
                for lc in locs:
                    vt = s.getloc(t, lc)
                    if not s.compat(h[lc], vt):
                        raise AnalysisError('location %r changes shape in %s: %r -> %r' % (lc, what, h[lc], vt))
            if changed:
                cspace = basis
                continue
            # ---- affine relations
            space = basis
            for t in backs:
                delta = {lc: t.cs.norm(s.num(s.getloc(t, lc)) - s.num(e0[lc])) for lc in ints}
                if s.ring is not None:
                    delta = modulo(delta, [t.cs.norm(x) for x in eqs])
                space2 = nullspace(space, delta)
                if len(space2) != len(space):
                    changed = True
                space = space2
            if changed:
                cspace = space
                continue
            cspace = space
            # ---- inequalities
            for t in backs:
                hv = {lc: s.getloc(t, lc) for lc in locs}
                for key, e in cand_list(t, hv):
                    if key in init and key not in dropped:
                        if not t.cs.prove(e):
                            dropped.add(key)
                            changed = True
            # ---- harvested conditions as new candidates
            hs = {}
            for lc in ints:
                n = s.num(h[lc])
                n = g.cs.norm(n) if False else n
                if len(n.d) == 1 and n.c == 0:
                    hs[next(iter(n.d))] = lc
            if rounds <= 12:
                have = {c[0] for c in cands}
                for e in harvested:
                    # rewrite over location symbols (harvested expressions are normalised in some
                    # descendant state; accept those only over h symbols and symbols known at entry)
                    coef = {}
                    cst = L(e.c)
                    okc = True
                    for k, v in e.d.items():
                        if k in hs:
                            coef[hs[k]] = v
                        elif k < g_entry_syms(st0, s):
                            cst = cst + L(0, {k: v})
                        else:
                            okc = False
                            break
                    if not okc or not coef:
                        continue
                    ks = [0, 1, -1]
                    if -64 <= e.c <= -2:
                        ks.append(-e.c)
                    # what remains of the condition after one more round
                    for t in backs:
                        d = L(0)
                        for lc, c in coef.items():
                            x = s.num(s.getloc(t, lc))
                            if x is None:
                                d = None
                                break
                            d = d + (x - s.num(h[lc])).scale(c)
                        if d is not None:
                            d = t.cs.norm(d)
                            if d.isconst() and d.c < -1 and -d.c not in ks and len(ks) < 6:
                                ks.append(-d.c)
                    for k in ks:
                        key = ('hv', e.key(), k, tuple(sorted(coef, key=repr)))
                        if key in have or key in dropped:
                            continue
                        have.add(key)
                        cc = (key, dict(coef), cst + k)
                        # must hold initially
                        e1 = cc[2]
                        for lc, c in coef.items():
                            e1 = e1 + s.num(e0[lc]).scale(c)
                        if not st0.cs.prove(e1):
                            dropped.add(key)
                            continue
                        cands.append(cc)
                        changed = True
            if changed:
                continue
            # ---- stable: final, unmuted pass
            if s.mute:
                return exits
            backs, exits = body(g)
            if rankit is not None:
                rankit(g, backs, locs, h)
            return exits

    def compared(s, fn, x):
        """does the value of x matter beyond its residue (comparison, division, widening, address)?"""
        uses = fn.__dict__.get('_uses')
        if uses is None:
            uses = fn._uses = {}
            for b in fn.blocks.values():
                for i in b:
                    for o in operands(i):
                        uses.setdefault(o, []).append(i)
        todo, seen = [x], {x}
        while todo:
            for i in uses.get(todo.pop(), ()):
                if i.op in ('icmp', 'gep', 'switch', 'udiv', 'urem', 'sdiv', 'srem', 'lshr', 'ashr', 'inttoptr', 'cbr'):
                    return True
                if i.res is not None and i.op in ('add', 'sub', 'mul', 'shl', 'phi', 'trunc', 'select', 'zext', 'sext', 'and', 'or', 'xor') \
                        and i.res not in seen:
                    seen.add(i.res)
                    todo.append(i.res)
        return False

    def ranked(s, fn, lp, bad, states):
        if not s.rank_tags:
            return
        ins = fn.blocks[lp.header][-1]
        st = None
        if bad:
            st = next((u for u in states if u.cs is bad[0][2]), None)
        s.oblige(st, not bad, s.rank_tags, 'no measure decreases on every way round this loop', ins, rule='ranking')

    def relazy(s, r, o, cb):
        return SYM.sym('lz', 0, (1 << (8 * cb[0])) - 1)

    def symonly(s, v):
        return isinstance(v, L) and len(v.d) == 1 and v.c == 0 or isinstance(v, Opaque)

    def num(s, v):
        if isinstance(v, L):
            return v
        if isinstance(v, Ptr):
            return v.o
        return None

    def getloc(s, st, lc):
        if lc[0] == 'e':
            return st.env.get(lc[1])
        if lc[0] == 'g':
            return st.ghost[lc[1]]
        r = st.mem[lc[1]]
        c = r.cells.get(lc[2])
        return c[1] if c is not None else None

    def setloc(s, st, lc, v):
        if lc[0] == 'e':
            st.env[lc[1]] = v
        elif lc[0] == 'g':
            st.ghost[lc[1]] = v
        else:
            r = st.w(lc[1])
            r.cells[lc[2]] = (r.cells[lc[2]][0], v)

    def havoc_value(s, st, v, lc, rnd):
        nm = 'h_' + '_'.join(str(x) for x in lc[1:])
        if isinstance(v, L):
            lo, hi = st.cs.interval(v)
            if lc[0] == 'm':
                w = 8 * st.mem[lc[1]].cells[lc[2]][0]
                if lo is not None and lo < 0:
                    return SYM.sym(nm, -(1 << (w - 1)), (1 << (w - 1)) - 1)
                return SYM.sym(nm, 0, (1 << w) - 1)
            return SYM.sym(nm)
        if isinstance(v, Ptr):
            if v.r is None:
                return v
            return Ptr(v.r, SYM.sym(nm + '_off', -MAXOBJ, MAXOBJ))
        return v

    def compat(s, a, b):
        if isinstance(a, L):
            return isinstance(b, L)
        if isinstance(a, Ptr):
            return isinstance(b, Ptr) and a.r == b.r
        if isinstance(a, Fn):
            return a == b
        if a is None:
            return True
        return isinstance(b, Opaque) or a is b

    def same(s, st, a, b):
        if a is b:
            return True
        if isinstance(a, L) and isinstance(b, L):
            return st.cs.norm(a - b) == 0
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.r == b.r and st.cs.norm(a.o - b.o) == 0
        if isinstance(a, Fn):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return True
        return a == b if type(a) == type(b) else False

    def same_segs(s, st, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not (st.cs.norm(x[0] - y[0]) == 0 and st.cs.norm(x[1] - y[1]) == 0):
                return False
            if x[2] is y[2]:
                continue
            if x[2][0] != y[2][0]:
                return False
            if x[2][0] in ('str', 'snap'):
                if x[2][1] != y[2][1] or st.cs.norm(x[2][2] - y[2][2]) != 0:
                    return False
            elif x[2][0] == 'val':
                if not s.same(st, x[2][2], y[2][2]):
                    return False
        return True


KEEP = []


def operands(i):
    out = []

    def walk(x):
        if isinstance(x, (list, tuple)):
            if len(x) == 2 and x[0] == 'r':
                out.append(x[1])
            else:
                for y in x:
                    walk(y)
    walk(i.a)
    return out


def modulo(delta, eqs):
    """the expressions reduced by equations without a unit coefficient (all scaled by the same factor)"""
    ech = []
    from fractions import Fraction

    def red(v):
        for k, r in ech:
            f = v.get(k)
            if f:
                for x, c in r.items():
                    y = v.get(x, 0) - f * c
                    if y:
                        v[x] = y
                    else:
                        v.pop(x, None)
        return v

    def vec(e):
        v = {k: Fraction(c) for k, c in e.d.items()}
        if e.c:
            v[None] = Fraction(e.c)
        return v
    for e in eqs:
        v = red(vec(e))
        ks = [k for k in v if k is not None]
        if ks:
            k = ks[0]
            f = v[k]
            ech.append((k, {x: c / f for x, c in v.items()}))
    if not ech:
        return delta
    out = {lc: red(vec(e)) for lc, e in delta.items()}
    m = 1
    for v in out.values():
        for c in v.values():
            m = m * c.denominator // math.gcd(m, c.denominator)
    return {lc: L(int(v.get(None, 0) * m), {k: int(c * m) for k, c in v.items() if k is not None}) for lc, v in out.items()}


def residue(e, w):
    """the same residue class modulo 2^w with small coefficients"""
    h = 1 << (w - 1)

    def f(c):
        return ((c + h) & ((1 << w) - 1)) - h
    d = {}
    for k, c in e.d.items():
        c = f(c)
        if c:
            d[k] = c
    return L(f(e.c), d)


def g_entry_syms(st0, eng):
    """symbols older than the generalisation are entry symbols"""
    return 1 << 60


def nullspace(space, delta):
    """combinations of the vectors in `space` (dict loc->coef) whose delta-sum is identically 0"""
    n = len(space)
    # each vector b: D_b = sum c*delta[lc]  (linear expression: const + symbols)
    Ds = []
    keys = {}
    for b in space:
        e = L(0)
        for lc, c in b.items():
            e = e + delta[lc].scale(c)
        Ds.append(e)
        if e.c:
            keys.setdefault('c', len(keys))
        for k in e.d:
            keys.setdefault(k, len(keys))
    if not keys:
        return space
    # rows: for each key, sum_j x_j D_j[key] = 0
    rows = []
    for k in keys:
        rows.append([Fraction(d.c if k == 'c' else d.d.get(k, 0)) for d in Ds])
    # gaussian elimination
    piv = {}
    r = 0
    m = len(rows)
    for col in range(n):
        p = None
        for i in range(r, m):
            if rows[i][col] != 0:
                p = i
                break
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        f = rows[r][col]
        rows[r] = [x / f for x in rows[r]]
        for i in range(m):
            if i != r and rows[i][col] != 0:
                f = rows[i][col]
                rows[i] = [x - f * y for x, y in zip(rows[i], rows[r])]
        piv[col] = r
        r += 1
        if r == m:
            break
    out = []
    for col in range(n):
        if col in piv:
            continue
        x = [Fraction(0)] * n
        x[col] = Fraction(1)
        for pc, pr in piv.items():
            x[pc] = -rows[pr][col]
        den = 1
        for y in x:
            den = den * y.denominator // gcd(den, y.denominator)
        v = {}
        for y, b in zip(x, space):
            c = int(y * den)
            if c:
                for lc, cc in b.items():
                    v[lc] = v.get(lc, 0) + c * cc
        v = {k: c for k, c in v.items() if c}
        g = 0
        for c in v.values():
            g = gcd(g, c)
        if g > 1:
            v = {k: c // g for k, c in v.items()}
        if v:
            out.append(v)
    return out
