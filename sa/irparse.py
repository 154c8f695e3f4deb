"""Parser for the textual LLVM IR of the analysed program (pure stdlib).

Produces a Module with typed globals, functions in SSA form and the debug
information that the rules need (struct field names, source lines)."""
import re


class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'name', 'packed')

    def __init__(s, k, n=0, el=None, fields=None, name=None, packed=False):
        s.k = k
        s.n = n
        s.el = el
        s.fields = fields
        s.name = name
        s.packed = packed

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.n
        if s.k == 'arr':
            return '[%d x %r]' % (s.n, s.el)
        if s.k == 'named':
            return '%' + s.name
        if s.k == 'struct':
            return '{' + ','.join(map(repr, s.fields)) + '}'
        return s.k


VOID, PTR, META, LABEL = Ty('void'), Ty('ptr'), Ty('metadata'), Ty('label')
FLOATS = {'float': Ty('float', 32), 'double': Ty('float', 64), 'x86_fp80': Ty('float', 80)}
_INTS = {}


def INT(n):
    if n not in _INTS:
        _INTS[n] = Ty('int', n)
    return _INTS[n]


TOK = re.compile(r'''
   c?"(?:[^"\\]|\\.)*"          # strings
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@][-a-zA-Z$._0-9]+
 | ![-a-zA-Z$._0-9]*
 | \#[0-9]+
 | -?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?
 | 0x[0-9A-Fa-fKLMH]+
 | -?[0-9]+
 | [a-zA-Z_.][-a-zA-Z0-9_.$]*
 | \.\.\.
 | [\[\]{}()<>,=*:|]
''', re.X)

ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly',
         'readnone', 'returned', 'immarg', 'inreg', 'noreturn', 'nounwind', 'allocptr', 'allocalign',
         'dso_local', 'internal', 'private', 'unnamed_addr', 'local_unnamed_addr', 'hidden', 'protected',
         'external', 'common', 'weak', 'linkonce_odr', 'available_externally', 'fastcc', 'ccc', 'coldcc',
         'tail', 'musttail', 'notail', 'volatile', 'nsw', 'nuw', 'exact', 'inbounds', 'inrange', 'fast',
         'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'disjoint', 'samesign', 'constant_',
         'mustprogress', 'thread_local', 'appending', 'extern_weak', 'default'}


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'dbg', 'x', 'fn', 'file')

    def __init__(s, op, res, ty, a, x=None):
        s.op, s.res, s.ty, s.a, s.x = op, res, ty, a, x
        s.line = 0
        s.dbg = None
        s.fn = None
        s.file = None

    def __repr__(s):
        return '%s=%s %r %r %r @%s' % (s.res, s.op, s.ty, s.a, s.x, s.line)


# operand forms: ('r',name) register; ('c',int) ; ('null',) ; ('undef',) ; ('g',name) global;
# ('ce',op,...) constant expr; ('agg',[..]) ; ('zero',) ; ('str',bytes) ; ('f',float)


class Func:
    def __init__(s, name):
        s.name = name
        s.src = name         # source-level name
        s.params = []
        s.ret = None
        s.blocks = {}        # label -> [Ins]
        s.order = []
        s.file = None
        s.line = 0
        s.vararg = False
        s.internal = False
        s.decl = True
        s.attrs = ''

    def ins(s):
        for b in s.order:
            for i in s.blocks[b]:
                yield i


class Module:
    def __init__(s):
        s.types = {}
        s.globals = {}    # name -> dict(ty, init, const, internal)
        s.funcs = {}
        s.meta = {}
        s.bysrc = {}      # source name -> [Func]
        s._szc = {}
        s._foc = {}
        s._keep = []

    # ---- layout
    def resolve(s, t):
        while t.k == 'named':
            t = s.types[t.name]
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            b = (t.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            return min(p, 16)
        if t.k == 'ptr':
            return 8
        if t.k == 'float':
            return 16 if t.n == 80 else t.n // 8
        if t.k == 'arr':
            return s.align(t.el)
        if t.k == 'struct':
            if t.packed or not t.fields:
                return 1
            return max(s.align(f) for f in t.fields)
        if t.k == 'opaque':
            return 1
        raise ValueError(t)

    def size(s, t):
        r = s._szc.get(id(t))
        if r is None:
            r = s._size(t)
            s._szc[id(t)] = r
            s._keep.append(t)
        return r

    def _size(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = s.align(t)
            return (b + a - 1) // a * a
        if t.k == 'ptr':
            return 8
        if t.k == 'float':
            return 16 if t.n == 80 else t.n // 8
        if t.k == 'arr':
            return t.n * s.size(t.el)
        if t.k == 'struct':
            off, al = 0, 1
            for f in t.fields:
                a = 1 if t.packed else s.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a + s.size(f)
            return (off + al - 1) // al * al
        if t.k == 'opaque':
            return 0
        raise ValueError(t)

    def field_off(s, t, i):
        r = s._foc.get((id(t), i))
        if r is None:
            r = s._field_off(t, i)
            s._foc[(id(t), i)] = r
            s._keep.append(t)
        return r

    def _field_off(s, t, i):
        t = s.resolve(t)
        off = 0
        for j, f in enumerate(t.fields):
            a = 1 if t.packed else s.align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off, f
            off += s.size(f)
        raise IndexError

    # ---- debug info
    def fn(s, src):
        """Function by source-level name (None if absent)."""
        if src in s.funcs and not s.funcs[src].decl:
            return s.funcs[src]
        l = [f for f in s.bysrc.get(src, []) if not f.decl]
        return l[0] if l else None

    def struct_di(s, name):
        """fields of DI struct `name` -> {field: (offset, size, basetypeid)}"""
        best = None
        for mid, (kind, d) in s.meta.items():
            if kind == 'DICompositeType' and d.get('name') == name and 'elements' in d and \
                    d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                best = d
                break
        if best is None:
            # typedef'd anonymous struct
            for mid, (kind, d) in s.meta.items():
                if kind == 'DIDerivedType' and d.get('tag') == 'DW_TAG_typedef' and d.get('name') == name:
                    b = s.meta.get(d.get('baseType'))
                    if b and b[0] == 'DICompositeType' and 'elements' in b[1]:
                        best = b[1]
                        break
                    if b and b[1].get('name') and b[1].get('name') != name:
                        return s.struct_di(b[1]['name'])
        if best is None:
            return None
        res = {}
        for m in s.meta[best['elements']][1]:
            k, d = s.meta[m]
            off = int(d.get('offset', 0)) // 8
            if 'name' not in d and 'baseType' in d:  # anonymous union
                continue
            res[d['name']] = (off, int(d.get('size', 0)) // 8, d.get('baseType'))
        return res

    def struct_size(s, name):
        for mid, (kind, d) in s.meta.items():
            if kind == 'DICompositeType' and d.get('name') == name and 'elements' in d:
                return int(d.get('size', 0)) // 8
        return None

    def enum(s, name=None):
        """all enumerators {name: value}, optionally of one enum type"""
        res = {}
        for mid, (kind, d) in s.meta.items():
            if kind == 'DICompositeType' and d.get('tag') == 'DW_TAG_enumeration_type':
                tn = d.get('name')
                if name is not None and tn != name:
                    # typedef name?
                    ok = False
                    for k2, d2 in s.meta.values():
                        if k2 == 'DIDerivedType' and d2.get('tag') == 'DW_TAG_typedef' and \
                                d2.get('name') == name and d2.get('baseType') == mid:
                            ok = True
                            break
                    if not ok:
                        continue
                for m in s.meta[d['elements']][1]:
                    dd = s.meta[m][1]
                    res[dd['name']] = int(dd['value'])
        return res


class P:
    """token cursor"""

    def __init__(s, text, mod):
        s.t = TOK.findall(text)
        s.i = 0
        s.m = mod

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else None

    def next(s):
        x = s.t[s.i]
        s.i += 1
        return x

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if s.next() != x:
            raise SyntaxError('expected %s in %r at %d' % (x, s.t, s.i))

    def attrs(s):
        while True:
            p = s.peek()
            if p in ATTRS:
                s.i += 1
            elif p in ('align', 'dereferenceable', 'dereferenceable_or_null', 'addrspace'):
                s.i += 1
                if s.eat('('):
                    s.next()
                    s.expect(')')
                else:
                    s.next()
            elif p in ('byval', 'sret', 'elementtype', 'range', 'initializes', 'preallocated', 'memory'):
                s.i += 1
                if s.eat('('):
                    d = 1
                    while d:
                        x = s.next()
                        d += (x == '(') - (x == ')')
            elif p is not None and p.startswith('#'):
                s.i += 1
            else:
                return

    def type(s):
        p = s.next()
        if re.fullmatch(r'i[0-9]+', p):
            t = INT(int(p[1:]))
        elif p == 'ptr':
            t = PTR
        elif p == 'void':
            t = VOID
        elif p == 'metadata':
            t = META
        elif p == 'label':
            t = LABEL
        elif p in FLOATS:
            t = FLOATS[p]
        elif p == 'opaque':
            t = Ty('opaque')
        elif p == '[':
            n = int(s.next())
            s.expect('x')
            el = s.type()
            s.expect(']')
            t = Ty('arr', n, el)
        elif p == '<':
            if s.peek() == '{':
                s.next()
                t = s._struct(True)
                s.expect('>')
            else:
                n = int(s.next())
                s.expect('x')
                el = s.type()
                s.expect('>')
                t = Ty('arr', n, el)
        elif p == '{':
            t = s._struct(False)
        elif p[0] == '%':
            t = Ty('named', name=p[1:].strip('"'))
        else:
            raise SyntaxError('type %r in %r' % (p, s.t))
        while s.peek() == '(' and t.k != 'x' and s._functype():
            pass
        return t

    def _functype(s):
        # "ret (args...)" function type as used in varargs calls: i32 (ptr, ...)
        j = s.i
        d = 0
        k = j
        while k < len(s.t):
            if s.t[k] == '(':
                d += 1
            elif s.t[k] == ')':
                d -= 1
                if d == 0:
                    break
            k += 1
        inner = s.t[j + 1:k]
        # a function type is followed by a callee (@f / %f)
        nxt = s.t[k + 1] if k + 1 < len(s.t) else None
        if nxt is not None and nxt[0] in '@%' and all(x[0] not in '%@' or x.startswith('%struct') for x in inner):
            s.i = k + 1
            return True
        return False

    def _struct(s, packed):
        f = []
        if not s.eat('}'):
            while True:
                f.append(s.type())
                if s.eat('}'):
                    break
                s.expect(',')
        return Ty('struct', fields=f, packed=packed)

    def value(s, ty):
        p = s.next()
        c0 = p[0]
        if c0 == '%':
            return ('r', p[1:].strip('"'))
        if c0 == '@':
            return ('g', p[1:].strip('"'))
        if p in ('null',):
            return ('null',)
        if p in ('undef', 'poison'):
            return ('undef',)
        if p == 'zeroinitializer':
            return ('zero',)
        if p == 'true':
            return ('c', 1)
        if p == 'false':
            return ('c', 0)
        if p.startswith('c"'):
            b = bytearray()
            body = p[2:-1]
            i = 0
            while i < len(body):
                if body[i] == '\\':
                    b.append(int(body[i + 1:i + 3], 16))
                    i += 3
                else:
                    b += body[i].encode()
                    i += 1
            return ('str', bytes(b))
        if p == '[' or p == '{' or p == '<':
            close = {'[': ']', '{': '}', '<': '>'}[p]
            inner = None
            if p == '<' and s.peek() == '{':
                s.next()
                inner = '}'
            els = []
            end = inner or close
            if s.peek() == end:
                s.next()
            else:
                while True:
                    t = s.type()
                    els.append((t, s.value(t)))
                    if s.eat(end):
                        break
                    s.expect(',')
            if inner:
                s.expect(close)
            return ('agg', els)
        if ty is not None and ty.k == 'float':
            return ('f', p)
        if p == 'getelementptr':
            s.attrs()
            s.expect('(')
            sty = s.type()
            s.expect(',')
            args = []
            while True:
                s.attrs()
                t = s.type()
                s.attrs()
                args.append((t, s.value(t)))
                if s.eat(')'):
                    break
                s.expect(',')
            return ('ce', 'gep', sty, args)
        if p in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            s.expect('(')
            t = s.type()
            v = s.value(t)
            s.expect('to')
            t2 = s.type()
            s.expect(')')
            return ('ce', p, t, v, t2)
        if p in ('add', 'sub', 'mul', 'icmp'):
            # rarely used
            s.attrs()
            s.expect('(')
            t = s.type()
            v = s.value(t)
            s.expect(',')
            t2 = s.type()
            v2 = s.value(t2)
            s.expect(')')
            return ('ce', p, t, v, v2)
        if re.fullmatch(r'-?[0-9]+', p):
            return ('c', int(p))
        if re.match(r'0x|-?[0-9]', p):
            return ('f', p)
        if p.startswith('!') or p == 'metadata':
            return ('meta', p)
        raise SyntaxError('value %r in %r' % (p, s.t))


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
        'fpext', 'fptrunc', 'freeze'}


def parse_ins(line, mod):
    m = re.search(r', !dbg !(\d+)', line)
    dbg = m.group(1) if m else None
    # cut metadata attachments
    line = re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+(?=$|\s*#)', '', line)
    p = P(line, mod)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in ATTRS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        i = Ins(op, res, t, [a, b], fl)
    elif op in CAST:
        p.attrs()
        t = p.type()
        a = p.value(t)
        if op == 'freeze':
            i = Ins(op, res, t, [a], t)
        else:
            p.expect('to')
            t2 = p.type()
            i = Ins(op, res, t2, [a], t)
    elif op == 'fneg':
        t = p.type()
        i = Ins('fneg', res, t, [p.value(t)])
    elif op in ('icmp', 'fcmp'):
        p.attrs()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        i = Ins(op, res, INT(1), [a, b], (pred, t))
    elif op == 'load':
        p.attrs()
        t = p.type()
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        i = Ins(op, res, t, [a])
    elif op == 'store':
        p.attrs()
        t = p.type()
        v = p.value(t)
        p.expect(',')
        pt = p.type()
        a = p.value(pt)
        i = Ins(op, None, t, [v, a])
    elif op == 'alloca':
        p.attrs()
        t = p.type()
        n = ('c', 1)
        if p.eat(','):
            if p.peek() != 'align':
                nt = p.type()
                n = p.value(nt)
        i = Ins(op, res, t, [n])
    elif op == 'getelementptr':
        p.attrs()
        t = p.type()
        args = []
        while p.eat(','):
            at = p.type()
            args.append((at, p.value(at)))
        i = Ins('gep', res, PTR, args, t)
    elif op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, lab))
            if not p.eat(','):
                break
        i = Ins(op, res, t, inc)
    elif op == 'select':
        p.attrs()
        ct = p.type()
        c = p.value(ct)
        p.expect(',')
        t = p.type()
        a = p.value(t)
        p.expect(',')
        t2 = p.type()
        b = p.value(t2)
        i = Ins(op, res, t, [c, a, b])
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            i = Ins('br', None, None, [p.next()[1:].strip('"')])
        else:
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            l1 = p.next()[1:].strip('"')
            p.expect(',')
            p.expect('label')
            l2 = p.next()[1:].strip('"')
            i = Ins('cbr', None, None, [c, l1, l2])
    elif op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            v = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((v[1], p.next()[1:].strip('"')))
        i = Ins('switch', None, t, [c, d, cases])
    elif op == 'ret':
        t = p.type()
        i = Ins('ret', None, t, [] if t.k == 'void' else [p.value(t)])
    elif op == 'unreachable':
        i = Ins('unreachable', None, None, [])
    elif op == 'call':
        p.attrs()
        t = p.type()
        p.attrs()
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                else:
                    at = p.type()
                    p.attrs()
                    if at.k == 'metadata':
                        # skip metadata operand
                        d = 0
                        while p.peek() not in (',', ')') or d:
                            x = p.next()
                            d += (x == '(') - (x == ')')
                        args.append((at, ('meta',)))
                    else:
                        args.append((at, p.value(at)))
                if p.eat(')'):
                    break
                p.expect(',')
        i = Ins('call', res, t, args, callee)
    elif op in ('extractvalue', 'insertvalue', 'va_arg', 'fence', 'cmpxchg', 'atomicrmw'):
        i = Ins('unsupported:' + op, res, None, [])
    else:
        raise SyntaxError('op %s: %s' % (op, line))
    i.dbg = dbg
    return i


MDRE = re.compile(r'^!(\d+) = (?:distinct )?(.*)$')


def parse_meta(body):
    if body.startswith('!{'):
        return ('tuple', re.findall(r'!(\d+)|null', body))
    m = re.match(r'!(DI[A-Za-z]+)\((.*)\)$', body)
    if not m:
        return ('other', body)
    kind, args = m.group(1), m.group(2)
    d = {}
    for k, v in re.findall(r'([a-zA-Z]+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,()]+(?:\([^)]*\))?)', args):
        if v.startswith('"'):
            v = v[1:-1]
        elif v.startswith('!'):
            v = v[1:]
        d[k] = v
    return (kind, d)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    gdefs = []
    while i < n:
        l = lines[i]
        if not l or l[0] == ';' or l.startswith(('source_filename', 'target', 'attributes', 'module asm')):
            i += 1
            continue
        if l[0] == '!':
            mm = MDRE.match(l)
            if mm:
                m.meta[mm.group(1)] = parse_meta(mm.group(2))
            i += 1
            continue
        if l[0] == '%':
            p = P(l, m)
            name = p.next()[1:].strip('"')
            p.expect('=')
            p.expect('type')
            m.types[name] = p.type()
            i += 1
            continue
        if l[0] == '@':
            gdefs.append(l)
            i += 1
            continue
        if l.startswith('declare') or l.startswith('define'):
            isdef = l.startswith('define')
            mdbg = re.search(r'!dbg !(\d+)', l)
            attr = re.sub(r'\s*!dbg !\d+', '', l)
            p = P(attr.rstrip('{ '), m)
            p.next()
            internal = ' internal ' in l or ' private ' in l
            p.attrs()
            ret = p.type()
            p.attrs()
            name = p.next()[1:].strip('"')
            f = Func(name)
            f.ret = ret
            f.internal = internal
            f.decl = not isdef
            f.attrs = l
            p.expect('(')
            if not p.eat(')'):
                k = 0
                while True:
                    if p.peek() == '...':
                        p.next()
                        f.vararg = True
                    else:
                        t = p.type()
                        p.attrs()
                        nm = None
                        if p.peek() not in (',', ')'):
                            nm = p.next()[1:].strip('"')
                        f.params.append((t, nm if nm is not None else str(k)))
                        k += 1
                    if p.eat(')'):
                        break
                    p.expect(',')
            f.dbg = mdbg.group(1) if mdbg else None
            m.funcs[name] = f
            i += 1
            if isdef:
                cur = None
                nreg = len(f.params)
                while lines[i] != '}':
                    s = lines[i]
                    i += 1
                    if not s.strip() or s.lstrip().startswith(';'):
                        continue
                    if not s.startswith(' '):
                        lab = s.split(':')[0].strip('"')
                        cur = lab
                        f.blocks[cur] = []
                        f.order.append(cur)
                        continue
                    if cur is None:
                        cur = str(nreg)
                        f.blocks[cur] = []
                        f.order.append(cur)
                    s = s.strip()
                    s = s.split(' ;')[0] if ' ;' in s and '"' not in s else s
                    if s.startswith('switch'):
                        while ']' not in s:
                            s += ' ' + lines[i].strip()
                            i += 1
                    if 'llvm.dbg.' in s:
                        continue
                    ins = parse_ins(s, m)
                    ins.fn = f
                    f.blocks[cur].append(ins)
                i += 1
            continue
        i += 1
    for l in gdefs:
        l2 = re.sub(r'(, ![a-z]+ !\d+)+$', '', l)
        p = P(l2, m)
        name = p.next()[1:].strip('"')
        p.expect('=')
        const = False
        ext = False
        internal = False
        while True:
            x = p.peek()
            if x in ('global', 'constant'):
                const = x == 'constant'
                p.next()
                break
            if x in ('external', 'extern_weak'):
                ext = True
            if x in ('internal', 'private'):
                internal = True
            if x == 'thread_local':
                pass
            p.next()
            if p.peek() == '(':
                while p.next() != ')':
                    pass
        t = p.type()
        init = None
        if not ext and p.peek() is not None:
            init = p.value(t)
        m.globals[name] = dict(name=name, ty=t, init=init, const=const, ext=ext, internal=internal, text=l)
    # lines and names
    cache = {}

    def scope_file(sc):
        k = 0
        while sc is not None and k < 50:
            kind, d = m.meta.get(sc, (None, {}))
            if d.get('file'):
                f = m.meta.get(d['file'])
                return f[1].get('filename') if f else None
            sc = d.get('scope')
            k += 1
        return None

    for f in m.funcs.values():
        if f.dbg and f.dbg in m.meta:
            d = m.meta[f.dbg][1]
            f.src = d.get('name', f.name)
            f.line = int(d.get('line', 0))
            ff = m.meta.get(d.get('file'))
            f.file = ff[1].get('filename') if ff else None
        m.bysrc.setdefault(f.src, []).append(f)
        for b in f.order:
            for x in f.blocks[b]:
                if x.dbg and x.dbg in m.meta:
                    d = m.meta[x.dbg][1]
                    x.line = int(d.get('line', 0) or 0)
    return m


if __name__ == '__main__':
    import sys
    import time
    t = time.time()
    m = parse_module(open(sys.argv[1]).read())
    print(len(m.funcs), len(m.globals), len(m.meta), time.time() - t)
    print(m.struct_di('rs_job'))
    print(m.enum('rs_result'))
    print(m.size(Ty('named', name='struct.rs_job')), m.struct_size('rs_job'))
    bad = [x for f in m.funcs.values() for x in f.ins() if x.op.startswith('unsup')]
    print(bad)
    for g in list(m.globals.values())[:60]:
        print(g['name'], g['const'], g['ty'], str(g['init'])[:80])
