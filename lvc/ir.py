"""Parser for the textual LLVM IR that clang -O0 emits for one translation unit.

Only what clang 18 emits at -O0 for C is understood; anything else raises
Unsupported, which the engine reports as 'outside the verifier's reach'
(never as a violation).
"""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''\s*(
    c"(?:[^"\\]|\\.)*" |
    [%@]"[^"]*" |
    [%@!][-A-Za-z$._0-9]+ |
    "[^"]*" |
    -?\d+\.\d+e[+-]?\d+ | 0x[0-9A-Fa-f]+ |
    -?\d+ |
    [A-Za-z_$.][-A-Za-z$._0-9]* |
    \.\.\. |
    [][(){}<>,=*:|!\#]
)''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            if s[i:].lstrip().startswith(';'):
                break
            raise Unsupported('token at: ' + s[i:i + 40])
        t = m.group(1)
        if t == ';':
            break
        out.append(t)
        i = m.end()
    return out


# ---- types: ('int',n) ('ptr',) ('void',) ('double',) ('float',) ('array',n,t)
#             ('struct',name) ('lit',[t..]) ('func',) ('metadata',) ('x86_fp80',)
def ty_str(t):
    return repr(t)


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if re.fullmatch(r'i\d+', t):
            r = ('int', int(t[1:]))
        elif t in ('ptr', 'void', 'double', 'float', 'metadata', 'label', 'x86_fp80'):
            r = (t,)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('array', n, e)
        elif t == '{':
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            r = ('lit', tuple(fs))
        elif t == '<' and self.peek() == '{':
            self.next()
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            self.expect('>')
            r = ('lit', tuple(fs))
            self.packed = getattr(self, 'packed', []) + [r]
        elif t == '<' and re.fullmatch(r'\d+', self.peek() or ''):
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            r = ('vec', n, e)
        elif t[0] == '%':
            r = ('struct', t)
        else:
            raise Unsupported('type ' + t)
        # function type suffix
        if self.peek() == '(':
            save = self.i
            depth = 0
            while True:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            r = ('func', r)
            del save
        return r

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'noalias', 'nocapture',
             'readonly', 'writeonly', 'returned', 'inreg', 'immarg', 'noreturn',
             'nounwind', 'range', 'readnone'}

    def attrs(self):
        byval = None
        while True:
            t = self.peek()
            if t in self.ATTRS:
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
            elif t == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_parens()
                else:
                    self.next()
            elif t in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'elementtype'):
                k = self.next()
                self.expect('(')
                if k in ('byval', 'sret', 'elementtype'):
                    ty = self.type()
                    if k == 'byval':
                        byval = ty
                else:
                    self.next()
                self.expect(')')
            else:
                return byval

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            d += (x == '(') - (x == ')')

    def value(self, ty):
        """operand of known type -> ('reg',n)|('glob',n)|('int',v)|('null',)|('undef',)|('cexpr',...)"""
        t = self.next()
        if t[0] == '%':
            return ('reg', t)
        if t[0] == '@':
            return ('glob', t)
        if re.fullmatch(r'-?\d+', t):
            return ('int', int(t))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if re.fullmatch(r'-?\d+\.\d+e[+-]?\d+', t):
            return ('fp', float(t))
        if t.startswith('0x'):
            import struct
            if re.fullmatch(r'0x[0-9A-Fa-f]{1,16}', t):
                return ('fp', struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
            return ('undef',)
        if t == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            sty = self.type()
            self.expect(',')
            self.expect('ptr')
            base = self.value(('ptr',))
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type()
                idx.append((it, self.value(it)))
            self.expect(')')
            return ('cgep', sty, base, idx)
        if t in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            a = self.type()
            v = self.value(a)
            self.expect('to')
            b = self.type()
            self.expect(')')
            return ('ccast', t, a, v, b)
        if t[0] == 'c' and t[1:2] == '"':
            return ('cstr', decode_cstr(t[2:-1]))
        if t == '[':
            xs = []
            while not self.accept(']'):
                et = self.type()
                xs.append((et, self.value(et)))
                self.accept(',')
            return ('agg', xs)
        pk = t == '<' and self.peek() == '{'
        if pk:
            t = self.next()
        if t == '{':
            xs = []
            while not self.accept('}'):
                et = self.type()
                xs.append((et, self.value(et)))
                self.accept(',')
            if pk:
                self.expect('>')
            return ('agg', xs)
        raise Unsupported('operand ' + t)


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'line', 'text', 'x', 'blk')

    def __init__(self, op, dst=None, ty=None, args=None, line=0, text='', x=None):
        self.op, self.dst, self.ty, self.args = op, dst, ty, args
        self.line, self.text, self.x = line, text, x


class Func:
    def __init__(self, name, ret, params, varargs):
        self.name, self.ret, self.params, self.varargs = name, ret, params, varargs
        self.blocks = {}
        self.order = []
        self.line = 0


class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}
        self.internal = set()
        self.funcs = {}
        self.decls = {}
        self.md = {}

    # ---- layout
    def align(self, t):
        k = t[0]
        if k == 'int':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t[1]]
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'array':
            return self.align(t[2])
        fs = self.fields(t)
        return max([self.align(f) for f in fs] or [1])

    def fields(self, t):
        if t[0] == 'struct':
            r = self.structs.get(t[1])
            if r is None:
                raise Unsupported('opaque struct ' + t[1])
            return r
        if t[0] == 'lit':
            return t[1]
        raise Unsupported('fields of ' + repr(t))

    def size(self, t):
        k = t[0]
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'int':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}[t[1]]
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'array':
            return t[1] * self.size(t[2])
        off = 0
        for f in self.fields(t):
            a = self.align(f)
            off = (off + a - 1) // a * a + self.size(f)
        a = self.align(t)
        return (off + a - 1) // a * a

    def field_off(self, t, n):
        off = 0
        for i, f in enumerate(self.fields(t)):
            a = self.align(f)
            off = (off + a - 1) // a * a
            if i == n:
                return off, f
            off += self.size(f)
        raise Unsupported('field index')

    # ---- debug info: struct member offsets by source name
    def di_struct(self, name):
        """byte offsets of the members of struct `name` (or typedef name)"""
        cache = self.__dict__.setdefault('_dis', {})
        if name in cache:
            return cache[name]
        res = None
        for k, v in self.md.items():
            if 'DICompositeType' in v and ('name: "%s"' % name) in v and 'elements:' in v:
                res = self._members(v)
                if res:
                    break
        if not res:
            for k, v in self.md.items():
                if 'DIDerivedType(tag: DW_TAG_typedef' in v and ('name: "%s"' % name) in v:
                    m = re.search(r'baseType: (!\d+)', v)
                    if m and 'DICompositeType' in self.md.get(m.group(1), ''):
                        res = self._members(self.md[m.group(1)])
        if not res:
            raise Unsupported('no debug info for struct ' + name)
        cache[name] = res
        return res

    def _members(self, v):
        m = re.search(r'elements: (!\d+)', v)
        if not m:
            return None
        el = self.md.get(m.group(1), '')
        out = {}
        for r in re.findall(r'!\d+', el):
            d = self.md.get(r, '')
            mm = re.search(r'name: "([^"]*)"', d)
            if not mm:
                continue
            o = re.search(r'offset: (\d+)', d)
            off = int(o.group(1)) // 8 if o else 0
            out[mm.group(1)] = off
            bt = re.search(r'baseType: (!\d+)', d)
            # nested struct members: a.b
            b = self.md.get(bt.group(1), '') if bt else ''
            hops = 0
            while 'DW_TAG_typedef' in b and hops < 5:
                bb = re.search(r'baseType: (!\d+)', b)
                b = self.md.get(bb.group(1), '') if bb else ''
                hops += 1
            if 'DICompositeType' in b and 'elements:' in b and 'DW_TAG_array' not in b and 'enumeration' not in b:
                for kk, oo in (self._members(b) or {}).items():
                    out[mm.group(1) + '.' + kk] = off + oo
        sz = re.search(r'[ (,]size: (\d+)', v)
        if sz:
            out['__size__'] = int(sz.group(1)) // 8
        return out

    def di_enum(self, name):
        for v in self.md.values():
            if 'DIEnumerator(name: "%s"' % name in v:
                return int(re.search(r'value: (-?\d+)', v).group(1))
        raise Unsupported('no enumerator ' + name)


CMT = re.compile(r'\s+;.*$')


def parse(path):
    m = Module()
    lines = open(path, errors='surrogateescape').read().split('\n')
    # metadata first
    for ln in lines:
        if ln.startswith('!'):
            k, _, v = ln.partition(' = ')
            m.md[k] = v
    locs = {}

    def line_of(ln):
        mm = re.search(r'!dbg (!\d+)', ln)
        if not mm:
            return 0
        d = m.md.get(mm.group(1), '')
        mm = re.search(r'line: (\d+)', d)
        return int(mm.group(1)) if mm else 0
    cur = None
    blk = None
    i = 0
    while i < len(lines):
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';' or ln[0] == '!':
            continue
        if cur is None:
            if ln.startswith('%') and ' = type ' in ln:
                nm, _, body = ln.partition(' = type ')
                if body.strip() == 'opaque':
                    m.structs[nm] = None
                else:
                    b = body.strip()
                    p = P(tokenize(b))
                    if p.peek() == '<':
                        continue
                    t = p.type()
                    m.structs[nm] = t[1] if t[0] == 'lit' else (t,)
            elif ln.startswith('@'):
                parse_global(m, ln)
            elif ln.startswith('declare'):
                mm = re.search(r'(@"[^"]+"|@[-\w$.]+)\(', ln)
                if mm:
                    m.decls[mm.group(1)] = ln
            elif ln.startswith('define'):
                try:
                    cur = parse_define(m, ln)
                except Unsupported:
                    while lines[i] != '}':
                        i += 1
                    i += 1
                    continue
                cur.line = 0
                mm = re.search(r'!dbg (!\d+)', ln)
                if mm:
                    x = re.search(r'line: (\d+)', m.md.get(mm.group(1), ''))
                    cur.line = int(x.group(1)) if x else 0
                m.funcs[cur.name] = cur
                blk = None
            continue
        if ln == '}':
            cur = None
            continue
        s = ln.strip()
        if re.match(r'^[-\w$."]+:(\s|$)', ln):
            name = '%' + ln.split(':')[0]
            blk = name
            cur.blocks[blk] = []
            cur.order.append(blk)
            continue
        if s.startswith('switch'):
            while ']' not in s:
                s += ' ' + lines[i].strip()
                i += 1
        line = line_of(s)
        if blk is None:
            blk = '%0entry'
            cur.blocks[blk] = []
            cur.order.append(blk)
        try:
            ins = parse_inst(m, s, line)
        except (Unsupported, IndexError) as e:
            ins = Inst('unsup', None, None, (str(e),), line, s)
        if ins is not None:
            ins.blk = blk
            cur.blocks[blk].append(ins)
    readonly(m)
    return m


def readonly(m):
    """static objects that are only ever indexed and loaded from are constants"""
    cand = {n for n in m.internal if n in m.globals and m.globals[n][0] is not None and not m.globals[n][2] and m.globals[n][1] is not None}
    if not cand:
        return

    def mentions(x, out):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'glob':
                out.add(x[1])
                return
            for y in x:
                mentions(y, out)

    def regs(x, out):
        if isinstance(x, (tuple, list)):
            if len(x) == 2 and x[0] == 'reg' and isinstance(x[1], str):
                out.append(x[1])
                return
            for y in x:
                regs(y, out)

    def base(v):
        while v[0] == 'cgep':
            v = v[2]
        return v[1] if v[0] == 'glob' else None
    bad = set()
    for n, (ty, init, const) in m.globals.items():
        mentions(init, bad)
    for f in m.funcs.values():
        geps, used = {}, set()
        for b in f.blocks.values():
            for x in b:
                o = set()
                rs = []
                if x.op == 'unsup':
                    bad |= {n for n in cand if n in (x.text or '')}
                    if not x.text:
                        return
                if x.op == 'load':
                    if base(x.args[0]) is None:
                        mentions(x.args, o)
                        if x.args[0][0] != 'reg':
                            regs(x.args, rs)
                elif x.op == 'gep':
                    g = base(x.args[0])
                    if g is not None:
                        geps[x.dst] = g
                        mentions(x.args[1], o)
                    else:
                        mentions(x.args, o)
                    if x.args[0][0] == 'reg' and x.args[0][1] in geps:
                        geps[x.dst] = geps[x.args[0][1]]
                    regs(x.args[1], rs)
                    if x.args[0][0] == 'reg':
                        rs.append(('sub', x.args[0][1]))
                else:
                    mentions(x.args, o)
                    regs(x.args, rs)
                bad |= o
                used |= {r for r in rs if isinstance(r, str)}
        for r, g in geps.items():
            if r in used:
                bad.add(g)
    for n in cand - bad:
        ty, init, _ = m.globals[n]
        m.globals[n] = (ty, init, True)


def strip_md(s):
    # drop trailing ", !dbg !12, !llvm.loop !3 ..." and attribute groups
    s = re.sub(r',\s*!\w[\w.]*\s+![\w.]+', '', s)
    s = re.sub(r'\s#\d+', '', s)
    return s


def parse_global(m, ln):
    mm = re.match(r'(@"[^"]+"|@[-\w$.]+) = (.*)$', ln)
    name, rest = mm.group(1), mm.group(2)
    rest = strip_md(rest)
    ext = bool(re.match(r'(external|extern_weak)', rest))
    if re.match(r'internal\b', rest):
        m.internal.add(name)
    const = False
    words = rest
    while True:
        w = words.split(' ', 1)
        if w[0] in ('private', 'internal', 'dso_local', 'unnamed_addr', 'local_unnamed_addr',
                    'external', 'common', 'weak', 'linkonce_odr', 'hidden', 'thread_local'):
            words = w[1]
        elif w[0] in ('global', 'constant'):
            const = w[0] == 'constant'
            words = w[1]
            break
        else:
            return
    try:
        p = P(tokenize(words))
        ty = p.type()
        init = None
        if not ext and p.peek() not in (None, ','):
            init = p.value(ty)
        for t in getattr(p, 'packed', ()):
            o = 0
            for i, f in enumerate(t[1]):
                if m.field_off(t, i)[0] != o:
                    raise Unsupported('packed layout')
                o += m.size(f)
        m.globals[name] = (ty, init, const)
    except (Unsupported, IndexError):
        m.globals[name] = (None, None, const)


def parse_define(m, ln):
    s = strip_md(ln)
    mm = re.search(r'(@"[^"]+"|@[-\w$.]+)\(', s)
    name = mm.group(1)
    pre = s[len('define'):mm.start()].split()
    pre = [w for w in pre if w not in ('dso_local', 'internal', 'hidden', 'weak', 'linkonce_odr',
                                       'noundef', 'signext', 'zeroext', 'noalias', 'nonnull', 'available_externally')]
    rp = P(tokenize(' '.join(pre)))
    ret = rp.type()
    p = P(tokenize(s[mm.end() - 1:]))
    p.expect('(')
    params = []
    va = False
    while not p.accept(')'):
        if p.accept('...'):
            va = True
            continue
        t = p.type()
        byval = p.attrs()
        n = p.next()
        params.append((n, t, byval))
        p.accept(',')
    return Func(name, ret, params, va)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptosi', 'fptoui', 'sitofp', 'uitofp',
        'fpext', 'fptrunc'}


def parse_inst(m, s, line):
    text = s
    if s.startswith('call void @llvm.dbg'):
        mm = re.search(r'metadata ptr (%[-\w$."]+), metadata (!\d+)', s)
        if mm and 'declare' in s:
            d = m.md.get(mm.group(2), '')
            nm = re.search(r'name: "([^"]+)"', d)
            if nm:
                return Inst('dbgname', None, None, (mm.group(1), nm.group(1)), line, text)
        return None
    if s.startswith('#dbg'):
        return None
    s = strip_md(s)
    dst = None
    mm = re.match(r'(%[-\w$."]+) = (.*)$', s)
    if mm:
        dst, s = mm.group(1), mm.group(2)
    p = P(tokenize(s))
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                t = p.type()
                cnt = (t, p.value(t))
        return Inst('alloca', dst, ty, (cnt,), line, text)
    if op == 'load':
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        p.expect('ptr')
        return Inst('load', dst, ty, (p.value(('ptr',)),), line, text)
    if op == 'store':
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('ptr')
        return Inst('store', None, ty, (v, p.value(('ptr',))), line, text)
    if op == 'getelementptr':
        p.accept('inbounds')
        ty = p.type()
        p.expect(',')
        p.expect('ptr')
        base = p.value(('ptr',))
        idx = []
        while p.accept(','):
            it = p.type()
            idx.append((it, p.value(it)))
        return Inst('gep', dst, ty, (base, idx), line, text)
    if op in ('icmp', 'fcmp'):
        pred = p.next()
        while pred in ('fast', 'nnan', 'ninf', 'samesign'):
            pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst(op, dst, ty, (pred, a, b), line, text)
    if op in BIN:
        flags = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast'):
            flags.add(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return Inst('bin', dst, ty, (op, flags, a, b), line, text)
    if op == 'fneg':
        ty = p.type()
        return Inst('fneg', dst, ty, (p.value(ty),), line, text)
    if op in CAST:
        while p.peek() in ('nneg',):
            p.next()
        a = p.type()
        v = p.value(a)
        p.expect('to')
        b = p.type()
        return Inst('cast', dst, b, (op, a, v), line, text)
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, (p.next(),), line, text)
        p.expect('i1')
        c = p.value(('int', 1))
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Inst('condbr', None, None, (c, a, b), line, text)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type()
            cv = p.value(t)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()))
        return Inst('switch', None, ty, (v, d, cases), line, text)
    if op == 'ret':
        if p.accept('void'):
            return Inst('ret', None, None, (None,), line, text)
        ty = p.type()
        return Inst('ret', None, ty, (p.value(ty),), line, text)
    if op == 'unreachable':
        return Inst('unreachable', None, None, (), line, text)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return Inst('phi', dst, ty, (inc,), line, text)
    if op == 'select':
        t1 = p.type()
        c = p.value(t1)
        p.expect(',')
        t2 = p.type()
        a = p.value(t2)
        p.expect(',')
        t3 = p.type()
        b = p.value(t3)
        return Inst('select', dst, t2, (c, a, b), line, text)
    if op == 'call':
        while p.peek() in P.ATTRS or p.peek() in ('fastcc', 'ccc'):
            p.attrs() if p.peek() in P.ATTRS else p.next()
        ty = p.type()
        if ty[0] == 'func':
            ty = ty[1]
        if p.peek() == 'asm':
            raise Unsupported('inline asm')
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            bv = p.attrs()
            if t == ('metadata',):
                p.next()
                args.append((t, None, None))
            else:
                args.append((t, p.value(t), bv))
            p.accept(',')
        return Inst('call', dst, ty, (callee, args), line, text)
    if op in ('va_arg', 'extractvalue', 'insertvalue', 'fence', 'indirectbr', 'freeze'):
        return Inst('unsup', dst, None, (op,), line, text)
    return Inst('unsup', dst, None, (op,), line, text)


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        mod = parse(f)
        print(f, len(mod.funcs), 'functions',
              sum(len(b) for g in mod.funcs.values() for b in g.blocks.values()), 'insts')
        for g in mod.funcs.values():
            for b in g.blocks.values():
                for x in b:
                    if x.op == 'unsup':
                        print('  ', g.name, x.text)
