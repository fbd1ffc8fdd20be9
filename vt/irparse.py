"""Parser for textual LLVM IR (clang 18, opaque pointers) - only what the symbolic executor needs.

Types are tuples/strings:  ('i',n) 'float' 'double' 'ptr' 'void' ('vec',n,t) ('arr',n,t)
('struct',(t..),packed) ('named',n) 'label' 'metadata'
"""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?\d+(?:\.\d+)?(?:e[+-]?\d+)?)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: ' + s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise IRError('expected %r at %r' % (s, [x[1] for x in self.t[max(0, self.i - 6):self.i + 8]]))

    def done(self):
        return self.i >= len(self.t)


def parse_type(p):
    k = p.kind()
    v = p.next()
    if k == 'word':
        if v in ('float', 'double', 'ptr', 'void', 'label', 'metadata', 'half', 'x86_fp80', 'token'):
            t = v
            if v == 'ptr' and p.peek() == 'addrspace':
                raise IRError('addrspace')
        elif re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v == 'opaque':
            t = 'opaque'
        else:
            raise IRError('type ' + v)
    elif k == 'loc':
        t = ('named', unq(v))
    elif v == '<':
        if p.eat('{'):
            ts = []
            if not p.eat('}'):
                while True:
                    ts.append(parse_type(p))
                    if p.eat('}'):
                        break
                    p.expect(',')
            p.expect('>')
            t = ('struct', tuple(ts), True)
        else:
            n = int(p.next())
            p.expect('x')
            e = parse_type(p)
            p.expect('>')
            t = ('vec', n, e)
    elif v == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        t = ('arr', n, e)
    elif v == '{':
        ts = []
        if not p.eat('}'):
            while True:
                ts.append(parse_type(p))
                if p.eat('}'):
                    break
                p.expect(',')
        t = ('struct', tuple(ts), False)
    else:
        raise IRError('type tok ' + v)
    # function type suffix (call void (ptr, ...) @f(...))
    if p.peek() == '(' and t != 'label':
        save = p.i
        try:
            p.next()
            args = []
            if not p.eat(')'):
                while True:
                    if p.eat('...'):
                        pass
                    else:
                        args.append(parse_type(p))
                        skip_attrs(p)
                    if p.eat(')'):
                        break
                    p.expect(',')
            t = ('func', t, tuple(args))
        except IRError:
            p.i = save
    return t


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly',
               'writeonly', 'readnone', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'swifterror',
               'allocalign', 'allocptr', 'writable', 'dead_on_unwind'}


def skip_attrs(p, out=None):
    """skip parameter attributes; collects (byval/sret/noalias) into out"""
    while True:
        v = p.peek()
        if v in PARAM_ATTRS:
            p.next()
            if out is not None:
                out[v] = True
        elif v == 'align':
            p.next()
            if p.eat('('):
                a = int(p.next())
                p.expect(')')
            else:
                a = int(p.next())
            if out is not None:
                out['align'] = a
        elif v in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range', 'initializes', 'captures'):
            p.next()
            p.expect('(')
            d = 1
            while d:
                x = p.next()
                d += (x == '(') - (x == ')')
        elif v in ('byval', 'sret', 'byref', 'inalloca', 'preallocated', 'elementtype'):
            p.next()
            p.expect('(')
            t = parse_type(p)
            p.expect(')')
            if out is not None:
                out[v] = t
        elif p.kind() == 'str':
            p.next()
            if p.eat('='):
                p.next()
        else:
            return


CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBINOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'disjoint', 'nneg', 'samesign', 'nusw'}


def parse_value(p, ty):
    """returns a value descriptor:
       ('l',name) ('g',name) ('int',n) ('fp',bits64) ('null',) ('undef',) ('zero',) ('agg',[(ty,val)..]) ('str',bytes)
       ('cgep',ty,base,[idx]) ('ccast',op,ty,val,toty)"""
    k = p.kind()
    v = p.next()
    if k == 'loc':
        return ('l', unq(v))
    if k == 'glob':
        return ('g', unq(v))
    if k == 'num':
        if ty in ('float', 'double'):
            import struct
            return ('fp', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
        return ('int', int(v))
    if k == 'hex':
        if ty in ('float', 'double'):
            return ('fp', int(v, 16))
        return ('int', int(v, 16))
    if k == 'str':
        s = v[2:-1] if v[0] == 'c' else v[1:-1]
        b = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i + 1] == '\\':
                    b.append(92)
                    i += 2
                else:
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
            else:
                b.append(ord(s[i]))
                i += 1
        return ('str', bytes(b))
    if v == 'true':
        return ('int', 1)
    if v == 'false':
        return ('int', 0)
    if v == 'null' or v == 'none':
        return ('null',)
    if v in ('undef', 'poison'):
        return ('undef',)
    if v == 'zeroinitializer':
        return ('zero',)
    if v == '<' and p.peek() == '{':
        p.next()
        r = parse_agg(p, '}')
        p.expect('>')
        return r
    if v in '<[{':
        return parse_agg(p, {'<': '>', '[': ']', '{': '}'}[v])
    if v == 'getelementptr':
        while p.peek() in FLAGS or p.peek() == 'inrange':
            w = p.next()
            if w == 'inrange':
                p.expect('(')
                while not p.eat(')'):
                    p.next()
        p.expect('(')
        t = parse_type(p)
        p.expect(',')
        bt = parse_type(p)
        b = parse_value(p, bt)
        idx = []
        while p.eat(','):
            p.eat('inrange')
            it = parse_type(p)
            idx.append((it, parse_value(p, it)))
        p.expect(')')
        return ('cgep', t, b, idx)
    if v in CASTS:
        p.expect('(')
        t = parse_type(p)
        x = parse_value(p, t)
        p.expect('to')
        t2 = parse_type(p)
        p.expect(')')
        return ('ccast', v, t, x, t2)
    if v in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'lshr'):
        while p.peek() in FLAGS:
            p.next()
        p.expect('(')
        t = parse_type(p)
        x = parse_value(p, t)
        p.expect(',')
        t2 = parse_type(p)
        y = parse_value(p, t2)
        p.expect(')')
        return ('cbin', v, t, x, y)
    if v in ('asm',):
        raise IRError('inline asm')
    raise IRError('value %r' % v)


def parse_agg(p, close):
    items = []
    if p.eat(close):
        return ('agg', items)
    while True:
        t = parse_type(p)
        items.append((t, parse_value(p, t)))
        if p.eat(close):
            return ('agg', items)
        p.expect(',')


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'x')

    def __init__(self, op, res, ty, a, text, x=None):
        self.op, self.res, self.ty, self.a, self.text, self.x = op, res, ty, a, text, x


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'order', 'lines', 'parsed', 'loadonly')

    def __init__(self):
        self.blocks = None
        self.lines = []
        self.parsed = False
        self.loadonly = None


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}   # name -> (type, valuedesc or None, const, align)
        self.funcs = {}
        self.aliases = {}
        self._layout = {}
        self.parse(text)

    def fnorder(self):
        if not hasattr(self, '_fnorder'):
            self._fnorder = list(self.funcs)
        return self._fnorder

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!' or ln.startswith('source_filename') or ln.startswith('target ') \
                    or ln.startswith('attributes') or ln[0] == '$':
                continue
            if ln[0] == '%':
                m = re.match(r'(%(?:"[^"]*"|\S+)) = type (.*)', ln)
                if m.group(2).strip() == 'opaque':
                    self.types[unq(m.group(1))] = 'opaque'
                else:
                    self.types[unq(m.group(1))] = parse_type(P(tokenize(m.group(2))))
            elif ln[0] == '@':
                self.parse_global(ln)
            elif ln.startswith('declare'):
                f = self.parse_header(ln)
                if f.name not in self.funcs:
                    self.funcs[f.name] = f
            elif ln.startswith('define'):
                f = self.parse_header(ln)
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f.lines = body
                self.funcs[f.name] = f

    def parse_global(self, ln):
        toks = P(tokenize(ln))
        name = unq(toks.next())
        toks.expect('=')
        extern = False
        while True:
            v = toks.peek()
            if v in ('global', 'constant'):
                const = v == 'constant'
                toks.next()
                break
            if v == 'alias':
                toks.next()
                parse_type(toks)
                toks.expect(',')
                parse_type(toks)
                self.aliases[name] = unq(toks.next())
                return
            if v in ('external', 'extern_weak'):
                extern = True
            if v == 'thread_local':
                toks.next()
                if toks.eat('('):
                    while not toks.eat(')'):
                        toks.next()
                continue
            if v == 'comdat':
                toks.next()
                continue
            toks.next()
        ty = parse_type(toks)
        val = None
        if not extern:
            try:
                val = parse_value(toks, ty)
            except IRError:
                val = None
        align = 1
        while not toks.done():
            if toks.next() == 'align':
                align = int(toks.next())
        self.globals[name] = (ty, val, const, align)

    def parse_header(self, ln):
        toks = P(tokenize(ln))
        toks.next()
        f = Func()
        # linkage etc. until a type is parseable followed by @name
        while True:
            v = toks.peek()
            if v in ('dso_local', 'internal', 'linkonce_odr', 'weak', 'weak_odr', 'private', 'available_externally',
                     'external', 'hidden', 'unnamed_addr', 'local_unnamed_addr', 'fastcc', 'extern_weak', 'linkonce',
                     'protected', 'default', 'x86_vectorcallcc', 'dso_preemptable', 'ccc', 'common'):
                toks.next()
            elif v in PARAM_ATTRS or v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range'):
                skip_attrs(toks)
            else:
                break
        f.ret = None
        # parse return type without treating "(" as function type (name follows)
        f.ret = parse_type(toks)
        f.name = unq(toks.next())
        toks.expect('(')
        f.params = []
        if not toks.eat(')'):
            n = 0
            while True:
                if toks.eat('...'):
                    pass
                else:
                    t = parse_type(toks)
                    at = {}
                    skip_attrs(toks, at)
                    if toks.kind() == 'loc':
                        nm = unq(toks.next())
                    else:
                        nm = '%%%d' % n
                    f.params.append((t, nm, at))
                    n += 1
                if toks.eat(')'):
                    break
                toks.expect(',')
        return f

    def body(self, f):
        if f.parsed:
            return f
        f.parsed = True
        f.blocks = {}
        f.order = []
        nparam = len(f.params)
        cur = None
        lines = f.lines
        i = 0
        first = True
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = '%' + nm
                f.blocks[cur] = []
                f.order.append(cur)
                if first:
                    f.entry = cur
                    first = False
                continue
            if first:
                # implicit entry label: number after the params
                cnt = sum(1 for (_, nm, _) in f.params if re.fullmatch(r'%\d+', nm))
                cur = '%%%d' % cnt
                f.entry = cur
                f.blocks[cur] = []
                f.order.append(cur)
                first = False
            if s.startswith('switch') and '[' in s and ']' not in s:
                while True:
                    s += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            if ' invoke ' in ' ' + s and ' unwind label ' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            if ' landingpad ' in ' ' + s:
                cl = []
                while i < len(lines) and lines[i].strip().startswith(('cleanup', 'catch ', 'filter ')):
                    cl.append(lines[i].strip())
                    i += 1
                ins = parse_inst(s)
                ins.x = ['cleanup' if c == 'cleanup' else c.split()[-1] if c.startswith('catch ') else c for c in cl]
                f.blocks[cur].append(ins)
                continue
            f.blocks[cur].append(parse_inst(s))
        return f

    # ---- layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._layout.get(t)
        if r is None:
            r = self._size_align(t)
            self._layout[t] = r
        return r

    def _size_align(self, t):
        if t == 'float':
            return 4, 4
        if t in ('double', 'ptr'):
            return 8, 8
        if isinstance(t, tuple):
            k = t[0]
            if k == 'i':
                n = (t[1] + 7) // 8
                s = 1
                while s < n:
                    s *= 2
                return s, min(s, 16)
            if k == 'vec':
                es = self.size_align(t[2])[0]
                if t[2] == ('i', 1):
                    s = max(1, t[1] // 8)
                else:
                    s = es * t[1]
                a = 1
                while a < s:
                    a *= 2
                return s, a
            if k == 'arr':
                s, a = self.size_align(t[2])
                return s * t[1], a
            if k == 'named':
                return self.size_align(self.types[t[1]])
            if k == 'struct':
                off = 0
                al = 1
                for e in t[1]:
                    s, a = self.size_align(e)
                    if t[2]:
                        a = 1
                    off = (off + a - 1) // a * a + s
                    al = max(al, a)
                return (off + al - 1) // al * al, al
        raise IRError('size of %r' % (t,))

    def field_off(self, t, idx):
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == idx:
                return off
            off += s
        raise IRError('field')


def strip_md(p):
    pass


def parse_inst(s):
    toks = tokenize(s)
    p = P(toks)
    res = None
    if p.kind() == 'loc' and len(toks) > 1 and toks[1][1] == '=':
        res = unq(p.next())
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'call' or op == 'invoke':
        while True:
            v = p.peek()
            if v in FLAGS or v in ('fastcc', 'ccc', 'x86_vectorcallcc', 'coldcc'):
                p.next()
            elif v in PARAM_ATTRS or v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range'):
                skip_attrs(p)
            else:
                break
        ty = parse_type(p)
        if isinstance(ty, tuple) and ty[0] == 'func':
            ty = ty[1]
        callee = parse_value(p, 'ptr')
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                t = parse_type(p)
                at = {}
                skip_attrs(p, at)
                if t == 'metadata':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        d += (x in '([{') - (x in ')]}')
                    args.append((t, ('undef',), at))
                else:
                    args.append((t, parse_value(p, t), at))
                if p.eat(')'):
                    break
                p.expect(',')
        x = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.expect('label')
            x = [unq(p.next())]
            while p.peek() != 'unwind':
                p.next()
            p.next()
            p.expect('label')
            x.append(unq(p.next()))
        return Inst(op, res, ty, (callee, args), s, x)
    if op in BINOPS or op in FBINOPS:
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Inst(op, res, ty, (a, b), s)
    if op == 'fneg' or op == 'freeze':
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        return Inst(op, res, ty, (parse_value(p, ty),), s)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Inst(op, res, ty, (a, b), s, pred)
    if op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect('to')
        t2 = parse_type(p)
        return Inst(op, res, t2, (v,), s, t)
    if op == 'alloca':
        p.eat('inalloca')
        ty = parse_type(p)
        cnt = ('int', 1)
        al = None
        while p.eat(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            elif p.kind() == 'meta':
                p.next()
            else:
                t = parse_type(p)
                cnt = parse_value(p, t)
        return Inst(op, res, ty, (cnt,), s, al)
    if op == 'load':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = parse_type(p)
        p.expect(',')
        parse_type(p)
        v = parse_value(p, 'ptr')
        al = 1
        while not p.done():
            if p.next() == 'align':
                al = int(p.next())
        return Inst(op, res, ty, (v,), s, al)
    if op == 'store':
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        q = parse_value(p, 'ptr')
        al = 1
        while not p.done():
            if p.next() == 'align':
                al = int(p.next())
        return Inst(op, None, ty, (v, q), s, al)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        p.expect(',')
        bt = parse_type(p)
        b = parse_value(p, bt)
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            it = parse_type(p)
            idx.append((it, parse_value(p, it)))
        return Inst(op, res, ty, (b, idx), s)
    if op == 'br':
        if p.eat('label'):
            return Inst(op, None, None, None, s, (unq(p.next()),))
        t = parse_type(p)
        c = parse_value(p, t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())
        p.expect(',')
        p.expect('label')
        b = unq(p.next())
        return Inst(op, None, None, (c,), s, (a, b))
    if op == 'switch':
        t = parse_type(p)
        c = parse_value(p, t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct = parse_type(p)
            cv = parse_value(p, ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next())))
        return Inst(op, None, t, (c,), s, (d, cases))
    if op == 'ret':
        t = parse_type(p)
        if t == 'void':
            return Inst(op, None, t, None, s)
        return Inst(op, None, t, (parse_value(p, t),), s)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            b = unq(p.next())
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
            if p.kind() == 'meta':
                break
        return Inst(op, res, ty, inc, s)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        ct = parse_type(p)
        c = parse_value(p, ct)
        p.expect(',')
        t = parse_type(p)
        a = parse_value(p, t)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_value(p, t2)
        return Inst(op, res, t, (c, a, b), s, ct)
    if op == 'extractelement':
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(',')
        it = parse_type(p)
        i = parse_value(p, it)
        return Inst(op, res, t, (v, i), s, it)
    if op == 'insertelement':
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(',')
        et = parse_type(p)
        e = parse_value(p, et)
        p.expect(',')
        it = parse_type(p)
        i = parse_value(p, it)
        return Inst(op, res, t, (v, e, i), s, it)
    if op == 'shufflevector':
        t = parse_type(p)
        a = parse_value(p, t)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_value(p, t2)
        p.expect(',')
        mt = parse_type(p)
        m = parse_value(p, mt)
        return Inst(op, res, t, (a, b), s, (mt, m))
    if op == 'extractvalue':
        t = parse_type(p)
        v = parse_value(p, t)
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return Inst(op, res, t, (v,), s, idx)
    if op == 'insertvalue':
        t = parse_type(p)
        v = parse_value(p, t)
        p.expect(',')
        et = parse_type(p)
        e = parse_value(p, et)
        idx = []
        while p.eat(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return Inst(op, res, t, (v, e), s, idx)
    if op in ('unreachable', 'fence', 'landingpad', 'resume'):
        return Inst(op, res, None, None, s)
    return Inst('unsupported:' + op, res, None, None, s)
