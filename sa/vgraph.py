"""Global value numbering of straight-line code: the value every memory cell holds after a function
whose control flow does not depend on its data, as a canonical expression over the inputs.

Integer values are hash-consed expressions of three shapes, each with its own normal form: linear
sums modulo 2^w, bitwise functions (by truth table) and concatenations of bit slices (which covers
shifts, rotations, conversions and byte-wise memory access).  Two pieces of code that compute the
same thing through re-associated sums, other spellings of a boolean function, rotation by shifts,
table-driven or unrolled rounds, or helper functions get the same expression."""
from engine import AnalysisError, Engine

MAXOP = 6


class Graph:
    def __init__(s):
        s.tab = {}
        s.nodes = []

    def mk(s, *n):
        i = s.tab.get(n)
        if i is None:
            i = s.tab[n] = len(s.nodes)
            s.nodes.append(n)
        return i

    def w(s, i):
        return s.nodes[i][1]

    def k(s, w, c):
        return s.mk('k', w, c & ((1 << w) - 1))

    def atom(s, w, name):
        return s.mk('a', w, name)

    def const(s, i):
        n = s.nodes[i]
        return n[2] if n[0] == 'k' else None

    # ---- sums
    def lin(s, w, c, terms):
        m = 1 << w
        t = {}
        todo = list(terms)
        while todo:
            i, f = todo.pop()
            n = s.nodes[i]
            if n[0] == 'k':
                c += f * n[2]
            elif n[0] == '+':
                c += f * n[2]
                todo += [(j, f * g) for j, g in n[3]]
            else:
                t[i] = (t.get(i, 0) + f) % m
        t = tuple(sorted((i, f) for i, f in t.items() if f))
        c %= m
        if not t:
            return s.k(w, c)
        if c == 0 and len(t) == 1 and t[0][1] == 1:
            return t[0][0]
        d = s.disjoint(w, c, t)
        if d is not None:
            return d
        return s.mk('+', w, c, t)

    def disjoint(s, w, c, t):
        """a sum of values with no set bits in common is a concatenation"""
        ps = []
        for i, f in t:
            if f & (f - 1):
                return None
            x = s.pieces(i)
            k = f.bit_length() - 1
            ps.append(s.shl_p(x, k, w))
        if c:
            ps.append([(s.k(w, c), 0, w)])
        if len(ps) == 1 and len([p for p in ps[0] if not s.zero(p)]) == 1 and not any(f != 1 for _, f in t):
            return None
        return s.merge(w, ps)

    # ---- slices
    def pieces(s, i):
        n = s.nodes[i]
        if n[0] == 'cat':
            return list(n[2])
        return [(i, 0, n[1])]

    def zero(s, p):
        c = s.const(p[0])
        return c is not None and (c >> p[1]) & ((1 << p[2]) - 1) == 0

    def cat(s, ps):
        out = []
        for i, lo, n in ps:
            if n <= 0:
                continue
            c = s.const(i)
            if c is not None:
                c = (c >> lo) & ((1 << n) - 1)
                if out and s.const(out[-1][0]) is not None:
                    j, l2, n2 = out[-1]
                    out[-1] = (s.k(n + n2, s.const(j) | c << n2), 0, n + n2)
                else:
                    out.append((s.k(n, c), 0, n))
            elif out and out[-1][0] == i and out[-1][1] + out[-1][2] == lo:
                out[-1] = (i, out[-1][1], out[-1][2] + n)
            else:
                out.append((i, lo, n))
        w = sum(n for _, _, n in out)
        if len(out) == 1 and out[0][1] == 0 and s.w(out[0][0]) == w:
            return out[0][0]
        return s.mk('cat', w, tuple(out))

    def cut(s, ps, lo, n):
        out = []
        pos = 0
        for i, l, k in ps:
            a, b = max(lo, pos), min(lo + n, pos + k)
            if a < b:
                out.append((i, l + a - pos, b - a))
            pos += k
        return out

    def slice(s, i, lo, n):
        if lo == 0 and n == s.w(i):
            return i
        nd = s.nodes[i]
        if nd[0] == '+' and lo == 0:
            x = s.lin(n, nd[2], [(s.slice(j, 0, n), f) for j, f in nd[3]])
            if s.const(x) is not None:
                return x
        return s.cat(s.cut(s.pieces(i), lo, n))

    def shl_p(s, ps, k, w):
        return [(s.k(k, 0), 0, k)] * (k > 0) + s.cut(ps, 0, w - k) if k < w else [(s.k(w, 0), 0, w)]

    def zext(s, i, w):
        d = w - s.w(i)
        return s.cat(s.pieces(i) + [(s.k(d, 0), 0, d)])

    def sext(s, i, w):
        c = s.const(i)
        v = s.w(i)
        if c is not None:
            return s.k(w, c - (1 << v) if c >> (v - 1) else c)
        top = s.pieces(i)[-1]
        if s.zero(top):
            return s.zext(i, w)
        return s.mk('sext', w, i)

    def split(s, w, lists):
        """common refinement of several lists of pieces"""
        cuts = {0, w}
        for ps in lists:
            pos = 0
            for _, _, n in ps:
                cuts.add(pos)
                pos += n
        cuts = sorted(cuts)
        return [[s.cut(ps, a, b - a)[0] for ps in lists] for a, b in zip(cuts, cuts[1:])]

    def merge(s, w, lists):
        """union of values when at every bit at most one of them can be set, else None"""
        out = []
        for ps in s.split(w, lists):
            nz = [p for p in ps if not s.zero(p)]
            if len(nz) > 1:
                return None
            out.append(nz[0] if nz else (s.k(ps[0][2], 0), 0, ps[0][2]))
        return s.cat(out)

    # ---- bitwise functions
    def bits(s, op, a, b):
        w = s.w(a)
        x, y = s.const(a), s.const(b)
        if x is not None and y is not None:
            return s.k(w, {'and': x & y, 'or': x | y, 'xor': x ^ y}[op])
        if x is not None:
            a, b, x, y = b, a, y, x
        full = (1 << w) - 1
        if y is not None:
            if y == 0:
                return s.k(w, 0) if op == 'and' else a
            if y == full:
                if op == 'and':
                    return a
                if op == 'or':
                    return b
            elif op == 'and':
                out = []
                pos = 0
                for p in s.pieces(a):
                    for j in range(p[2]):
                        bit = y >> (pos + j) & 1
                        if out and out[-1][3] == bit and out[-1][0] == p[0] and out[-1][4] == pos:
                            q = out[-1]
                            out[-1] = (q[0], q[1], q[2] + 1, bit, pos)
                        else:
                            out.append((p[0], p[1] + j, 1, bit, pos))
                    pos += p[2]
                return s.cat([(i, lo, n) if bit else (s.k(n, 0), 0, n) for i, lo, n, bit, _ in out])
        if op != 'and':
            r = s.merge(w, [s.pieces(a), s.pieces(b)])
            if r is not None:
                return r
        na, nb = s.boolean(a), s.boolean(b)
        r = s.combine(op, w, na, nb)
        if r is None:
            r = s.combine(op, w, ((a,), 2), ((b,), 2))
        return r

    def boolean(s, i):
        """(operands, truth table); bit j of the table is the value when operand k is bit k of j"""
        n = s.nodes[i]
        if n[0] == 'b':
            return n[3], n[2]
        if n[0] == 'k' and n[2] == (1 << n[1]) - 1:
            return (), 1
        if n[0] == 'k' and n[2] == 0:
            return (), 0
        return (i,), 2

    def combine(s, op, w, A, B):
        ops = sorted(set(A[0]) | set(B[0]))
        if len(ops) > MAXOP:
            return None
        tt = 0
        for j in range(1 << len(ops)):
            v = {o: j >> k & 1 for k, o in enumerate(ops)}
            x = A[1] >> sum(v[o] << k for k, o in enumerate(A[0])) & 1
            y = B[1] >> sum(v[o] << k for k, o in enumerate(B[0])) & 1
            tt |= {'and': x & y, 'or': x | y, 'xor': x ^ y}[op] << j
        # drop operands that do not matter
        k = 0
        while k < len(ops):
            n = 1 << len(ops)
            if all((tt >> j & 1) == (tt >> (j ^ 1 << k) & 1) for j in range(n)):
                t2 = 0
                m = 0
                for j in range(n):
                    if not j >> k & 1:
                        t2 |= (tt >> j & 1) << m
                        m += 1
                tt = t2
                ops.pop(k)
            else:
                k += 1
        if not ops:
            return s.k(w, -1 if tt & 1 else 0)
        if len(ops) == 1 and tt == 2:
            return ops[0]
        return s.mk('b', w, tt, tuple(ops))

    # ---- operations
    def add(s, a, b, f=1):
        return s.lin(s.w(a), 0, [(a, 1), (b, f)])

    def rotl(s, i, k):
        w = s.w(i)
        ps = s.pieces(i)
        return s.cat(s.cut(ps, w - k, k) + s.cut(ps, 0, w - k))

    def op(s, op, a, b):
        w = s.w(a)
        x, y = s.const(a), s.const(b)
        if op in ('add', 'sub'):
            return s.add(a, b, 1 if op == 'add' else -1)
        if op in ('and', 'or', 'xor'):
            return s.bits(op, a, b)
        if op == 'mul':
            if x is not None:
                a, b, x, y = b, a, y, x
            if y is not None:
                return s.lin(w, 0, [(a, y)])
        if op in ('shl', 'lshr', 'ashr') and y is not None and y < w:
            if op == 'shl':
                return s.cat(s.shl_p(s.pieces(a), y, w))
            c = s.slice(a, y, w - y)
            return s.zext(c, w) if op == 'lshr' else s.sext(c, w)
        if op in ('udiv', 'urem') and y and y & (y - 1) == 0:
            k = y.bit_length() - 1
            return s.op('lshr', a, s.k(w, k)) if op == 'udiv' else s.bits('and', a, s.k(w, y - 1))
        if x is not None and y is not None and y and op in ('udiv', 'urem'):
            return s.k(w, x // y if op == 'udiv' else x % y)
        return s.mk('op', w, op, a, b)

    def show(s, i, d=3):
        n = s.nodes[i]
        if n[0] == 'k':
            return hex(n[2])
        if n[0] == 'a':
            return n[2]
        if d == 0:
            return '..'
        if n[0] == '+':
            return '(' + ' + '.join(['%s%s' % ('' if f == 1 else hex(f) + '*', s.show(j, d - 1)) for j, f in n[3]] + (
                [hex(n[2])] if n[2] else [])) + ')'
        if n[0] == 'cat':
            ps = n[2]
            if len(ps) == 2 and ps[0][0] == ps[1][0] and s.w(ps[0][0]) == n[1] and ps[1][1] == 0:
                return 'rotl(%s,%d)' % (s.show(ps[0][0], d - 1), ps[0][2])
            return '{' + ' '.join('%s[%d+%d]' % (s.show(j, d - 1), lo, k) for j, lo, k in reversed(ps)) + '}'
        if n[0] == 'b':
            return 'f%x(%s)' % (n[2], ', '.join(s.show(j, d - 1) for j in n[3]))
        return '%s(..)' % (n[2] if n[0] == 'op' else n[0])


class PtrV:
    __slots__ = ('r', 'o')

    def __init__(s, r, o):
        s.r, s.o = r, o

    def __eq__(a, b):
        return isinstance(b, PtrV) and a.r == b.r and a.o == b.o

    def __hash__(s):
        return hash((s.r, s.o))

    def __repr__(s):
        return '%s+%d' % (s.r, s.o)


class FnV:
    def __init__(s, n):
        s.n = n


NULLV = PtrV(None, 0)


class Value:
    """interpreter over the graph"""

    def __init__(s, mod, g=None):
        s.m = mod
        s.g = g or Graph()
        s.eng = Engine(mod)
        s.mem = {}        # region -> {offset: (value, byte index)}
        s.size = {}
        s.default = {}    # region -> None (undefined) or function(offset) -> byte node
        s.const = set()
        s.align = {}      # region -> address modulo 16
        s.n = 0
        s.steps = 0
        s.covered = {}
        s.written = set()

    def region(s, name, size, default=None, align=0, const=False):
        s.mem[name] = {}
        s.size[name] = size
        s.default[name] = default
        s.align[name] = align
        if const:
            s.const.add(name)
        return PtrV(name, 0)

    def err(s, ins, msg):
        raise AnalysisError('%s in %s:%s' % (msg, ins.fn.src if ins is not None else '?', ins.line if ins is not None else '?'))

    # ---- memory
    def check(s, p, n, ins):
        if not isinstance(p, PtrV) or p.r is None or p.o < 0 or p.o + n > s.size[p.r]:
            raise Bad(ins, 'access to %d bytes at %r, outside the object' % (n, p))

    def rbyte(s, r, o):
        c = s.mem[r].get(o)
        if c is not None:
            return c
        d = s.default[r]
        if d is not None:
            return (d(o), 0)
        return (s.g.atom(8, 'undefined:%s+%d' % (r, o)), 0)

    def load(s, p, ty, ins):
        n = s.m.size(ty)
        s.check(p, n, ins)
        b = [s.rbyte(p.r, p.o + k) for k in range(n)]
        v = b[0][0]
        if not isinstance(v, int):
            if all(b[k] == (v, k) for k in range(n)):
                return v
            s.err(ins, 'part of a pointer is loaded')
        if any(not isinstance(x, int) for x, _ in b):
            s.err(ins, 'part of a pointer is loaded')
        if ty.k == 'ptr':
            if all(s.g.const(x) == 0 for x, _ in b):
                return NULLV
            s.err(ins, 'an integer is used as pointer')
        ps = []
        for x, k in b:
            ps += s.g.cut(s.g.pieces(x), 8 * k, 8)
        v = s.g.cat(ps)
        return s.g.slice(v, 0, ty.n) if ty.n < 8 * n else v

    def store(s, p, v, ty, ins):
        n = s.m.size(ty)
        s.check(p, n, ins)
        if p.r in s.const:
            raise Bad(ins, 'writes to %s' % p.r)
        if isinstance(v, int) and s.g.w(v) < 8 * n:
            v = s.g.zext(v, 8 * n)
        s.written.add(p.r)
        for k in range(n):
            s.mem[p.r][p.o + k] = (v, k)

    # ---- operands
    def val(s, env, v, ty=None):
        k = v[0]
        if k == 'r':
            return env[v[1]]
        if k == 'c':
            return s.g.k(ty.n, v[1])
        if k == 'null':
            return NULLV
        if k == 'zero':
            return s.g.k(ty.n, 0) if ty is not None and ty.k == 'int' else NULLV
        if k == 'undef':
            s.n += 1
            return s.g.atom(ty.n, 'undef%d' % s.n) if ty.k == 'int' else NULLV
        if k == 'g':
            if v[1] in s.m.funcs:
                return FnV(v[1])
            r = 'g:' + v[1]
            if r not in s.mem:
                gl = s.m.globals[v[1]]
                s.region(r, s.m.size(gl['ty']), const=gl['const'] or s.eng.effconst(v[1]))
                if r in s.const and gl['init'] is not None:
                    s.default[r] = lambda o: s.g.k(8, 0)
                    for o, (n, x) in s.eng.flatten(gl).items():
                        if isinstance(x, tuple) and x[0] == 'gref':
                            x = s.val(env, ('g', x[1]))
                        elif hasattr(x, 'isconst') and x.isconst():
                            x = s.g.k(8 * n, x.c)
                        else:
                            s.n += 1
                            x = s.g.atom(8 * n, 'g%d' % s.n)
                        for k in range(n):
                            s.mem[r][o + k] = (x, k)
                elif r not in s.const:
                    s.default[r] = lambda o: s.g.atom(8, '%s+%d' % (r, o))
            return PtrV(r, 0)
        if k == 'ce' and v[1] == 'gep':
            a = v[3]
            return s.gep(v[2], s.val(env, a[0][1], a[0][0]), [(t, s.val(env, x, t)) for t, x in a[1:]], None)
        if k == 'ce' and v[1] in ('bitcast',):
            return s.val(env, v[3])
        raise AnalysisError('operand %r' % (v,))

    def gep(s, ty, base, idx, ins):
        if not isinstance(base, PtrV):
            s.err(ins, 'address of a non-object')
        off = base.o
        for j, (ity, i) in enumerate(idx):
            c = s.g.const(i)
            if c is None:
                raise AnalysisError('index depends on data (%s) in %s:%s' % (s.g.show(i), ins.fn.src, ins.line))
            if c >> (ity.n - 1):
                c -= 1 << ity.n
            if j == 0:
                off += c * s.m.size(ty)
                continue
            t = s.m.resolve(ty)
            if t.k == 'struct':
                o, ty = s.m.field_off(t, c)
                off += o
            else:
                off += c * s.m.size(t.el)
                ty = t.el
        return PtrV(base.r, off)

    def cond(s, v, ins):
        c = s.g.const(v) if isinstance(v, int) else None
        if c is None:
            raise AnalysisError('control flow depends on data (%s) in %s:%s' % (
                s.g.show(v) if isinstance(v, int) else v, ins.fn.src, ins.line))
        return c & 1

    # ---- execution
    def call(s, f, args, ins=None, depth=0):
        if depth > 40:
            s.err(ins, 'recursion')
        if f.decl:
            nm = f.name
            if nm.startswith('llvm.mem'):
                nm = nm.split('.')[1]
            if nm in ('memcpy', 'memmove'):
                n = s.g.const(args[2])
                if n is None:
                    s.err(ins, 'amount copied depends on data')
                if n:
                    s.check(args[0], n, ins)
                    s.check(args[1], n, ins)
                    if args[0].r in s.const:
                        raise Bad(ins, 'writes to %s' % args[0].r)
                    b = [s.rbyte(args[1].r, args[1].o + k) for k in range(n)]
                    s.written.add(args[0].r)
                    for k in range(n):
                        s.mem[args[0].r][args[0].o + k] = b[k]
                return args[0]
            if nm == 'memset':
                n = s.g.const(args[2])
                if n is None:
                    s.err(ins, 'amount set depends on data')
                if n:
                    s.check(args[0], n, ins)
                    x = s.g.slice(args[1], 0, 8)
                    s.written.add(args[0].r)
                    for k in range(n):
                        s.mem[args[0].r][args[0].o + k] = (x, 0)
                return args[0]
            if f.name.startswith(('llvm.fshl', 'llvm.fshr')):
                a, b, c = args
                k, w = s.g.const(c), s.g.w(a)
                if k is not None:
                    k %= w
                    lo = w - k if 'fshl' in f.name else k
                    return s.g.cat(s.g.cut(s.g.pieces(b) + s.g.pieces(a), lo, w))
            if f.name.startswith('llvm.bswap'):
                w = s.g.w(args[0])
                ps = s.g.pieces(args[0])
                return s.g.cat(sum([s.g.cut(ps, w - 8 - k, 8) for k in range(0, w, 8)], []))
            if f.name.startswith('llvm.'):
                return None
            s.err(ins, 'call of %s' % f.name)
        s.covered[f.src] = s.covered.get(f.src, 0) + 1
        env = dict((nm, a) for (t, nm), a in zip(f.params, args))
        blk, prev = f.order[0], None
        while True:
            body = f.blocks[blk]
            ph = []
            for i in body:
                if i.op != 'phi':
                    break
                v = [x for x, lab in i.a if lab == prev]
                ph.append((i.res, s.val(env, v[0], i.ty)))
            env.update(ph)
            nxt = None
            for i in body:
                s.steps += 1
                if s.steps > 400000:
                    s.err(i, 'too many steps')
                op = i.op
                if op == 'phi':
                    continue
                if op == 'ret':
                    return s.val(env, i.a[0], i.ty) if i.a else None
                if op == 'br':
                    nxt = i.a[0]
                    break
                if op == 'cbr':
                    nxt = i.a[1] if s.cond(s.val(env, i.a[0]), i) else i.a[2]
                    break
                v = s.step(env, i, depth)
                if i.res is not None:
                    env[i.res] = v
            if nxt is None:
                s.err(body[-1], 'unsupported control flow')
            prev, blk = blk, nxt

    def step(s, env, i, depth):
        op = i.op
        g = s.g
        if op == 'load':
            return s.load(s.val(env, i.a[0]), i.ty, i)
        if op == 'store':
            return s.store(s.val(env, i.a[1]), s.val(env, i.a[0], i.ty), i.ty, i)
        if op == 'gep':
            return s.gep(i.x, s.val(env, i.a[0][1], i.a[0][0]), [(t, s.val(env, x, t)) for t, x in i.a[1:]], i)
        if op == 'alloca':
            s.n += 1
            return s.region('%s:%%%s#%d' % (i.fn.src, i.res, s.n), s.m.size(i.ty))
        if op == 'call':
            f = s.val(env, i.x)
            if not isinstance(f, FnV):
                s.err(i, 'indirect call')
            return s.call(s.m.funcs[f.n], [s.val(env, v, t) if t.k != 'metadata' else None for t, v in i.a], i, depth + 1)
        if op == 'icmp':
            pred, ty = i.x
            a, b = s.val(env, i.a[0], ty), s.val(env, i.a[1], ty)
            return s.icmp(pred, a, b, i)
        if op == 'select':
            return s.val(env, i.a[1] if s.cond(s.val(env, i.a[0]), i) else i.a[2], i.ty)
        if op in ('bitcast', 'freeze'):
            return s.val(env, i.a[0], i.x)
        if op == 'ptrtoint':
            p = s.val(env, i.a[0])
            if p.r is None:
                return g.k(i.ty.n, 0)
            base = g.cat([(g.k(4, s.align[p.r]), 0, 4), (g.atom(i.ty.n - 4, 'addr:' + p.r), 0, i.ty.n - 4)])
            return g.add(base, g.k(i.ty.n, p.o))
        if op in ('trunc', 'zext', 'sext'):
            v = s.val(env, i.a[0], i.x)
            if op == 'trunc':
                return g.slice(v, 0, i.ty.n)
            return g.zext(v, i.ty.n) if op == 'zext' else g.sext(v, i.ty.n)
        if i.ty is not None and i.ty.k == 'int' and len(i.a) == 2:
            return g.op(op, s.val(env, i.a[0], i.ty), s.val(env, i.a[1], i.ty))
        s.err(i, 'unsupported instruction %s' % op)

    def icmp(s, pred, a, b, i):
        g = s.g
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            if pred in ('eq', 'ne') and isinstance(a, PtrV) and isinstance(b, PtrV):
                return g.k(1, (a == b) == (pred == 'eq'))
            if a.r == b.r:
                a, b = g.k(64, a.o), g.k(64, b.o)
            else:
                s.err(i, 'comparison of unrelated pointers')
        w = g.w(a)
        if a == b:
            return g.k(1, pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        x, y = g.const(a), g.const(b)
        if x is None or y is None:
            s.n += 1
            return g.mk('cmp', 1, pred, a, b)
        if pred[0] == 's':
            x, y = [v - (1 << w) if v >> (w - 1) else v for v in (x, y)]
        return g.k(1, {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in (
            'eq', 'ne') else pred[1:]])


class Bad(Exception):
    """a definite violation met while interpreting"""

    def __init__(s, ins, msg):
        s.ins, s.msg = ins, msg


def evaluate(g, roots, env):
    """numerical value of expressions, env(atom name, width) -> int"""
    val = {}
    for i in range(max(roots) + 1):
        n = g.nodes[i]
        w = n[1]
        m = (1 << w) - 1
        if n[0] == 'k':
            v = n[2]
        elif n[0] == 'a':
            v = env(n[2], w) & m
        elif n[0] == '+':
            v = (n[2] + sum(val[j] * f for j, f in n[3])) & m
        elif n[0] == 'cat':
            v = pos = 0
            for j, lo, k in n[2]:
                v |= ((val[j] >> lo) & ((1 << k) - 1)) << pos
                pos += k
        elif n[0] == 'b':
            v = 0
            for b in range(w):
                j = sum((val[o] >> b & 1) << k for k, o in enumerate(n[3]))
                v |= (n[2] >> j & 1) << b
        elif n[0] == 'sext':
            x, w0 = val[n[2]], g.w(n[2])
            v = (x - (1 << w0) if x >> (w0 - 1) else x) & m
        elif n[0] == 'cmp':
            x, y, w0 = val[n[3]], val[n[4]], g.w(n[3])
            p = n[2]
            if p[0] == 's':
                x, y = [z - (1 << w0) if z >> (w0 - 1) else z for z in (x, y)]
            q = p if p in ('eq', 'ne') else p[1:]
            v = int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q])
        else:
            x, y = val[n[3]], val[n[4]]
            sx, sy = [z - (1 << w) if z >> (w - 1) else z for z in (x, y)]
            op = n[2]
            if op == 'mul':
                v = x * y
            elif op == 'shl':
                v = x << y if y < w else 0
            elif op == 'lshr':
                v = x >> y if y < w else 0
            elif op == 'ashr':
                v = sx >> min(y, w - 1)
            elif op in ('udiv', 'urem'):
                v = (x // y if op == 'udiv' else x % y) if y else 0
            elif op in ('sdiv', 'srem'):
                q = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1) if sy else 0
                v = q if op == 'sdiv' else sx - q * sy
            else:
                raise AnalysisError('operation %s' % op)
            v &= m
        val[i] = v
    return [val[i] for i in roots]
