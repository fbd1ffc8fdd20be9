"""Symbolic executor for LLVM IR produced by clang -O0 from the real sources.

Floats, integers and booleans are terms (terms.T); memory is a set of byte-addressed objects with
uninitialised-read, bounds and alignment tracking; data-dependent branches fork (by re-execution
with a decision prefix).
"""
import re
from terms import *
import terms as TM
from irparse import Module, IRError, Inst


class Unencodable(Exception):
    pass


class PathEnd(Exception):
    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class Violation(Exception):
    """memory-safety / UB event on the current path"""

    def __init__(self, kind, msg):
        self.kind = kind
        self.msg = msg


class MergeFail(Exception):
    pass


class Obj:
    __slots__ = ('size', 'align', 'cells', 'name', 'addr', 'ro', 'freed', 'reads', 'writes')

    def __init__(self, size, align, name, addr, ro=False):
        self.size = size
        self.align = align
        self.cells = {}
        self.name = name
        self.addr = addr
        self.ro = ro
        self.freed = False
        self.reads = None
        self.writes = None


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)
CTYPE = {'isdigit': ('09',), 'isspace': ('\t\r', '  '), 'isalpha': ('az', 'AZ'), 'isalnum': ('az', 'AZ', '09'), 'isupper': ('AZ',),
         'islower': ('az',), 'isblank': ('\t\t', '  '), 'isxdigit': ('09', 'af', 'AF'), 'isprint': (' ~',), 'isgraph': ('!~',),
         'ispunct': ('!/', ':@', '[`', '{~'), 'iscntrl': ('\0\x1f', '\x7f\x7f')}
FNBASE = 0x600000000000


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class SymPtr:
    """address with one symbolic index; only ever an operand of loads"""
    __slots__ = ('obj', 'off', 'idx', 'es')

    def __init__(self, obj, off, idx, es):
        self.obj = obj
        self.off = off
        self.idx = idx
        self.es = es


class UndefPtr:
    pass


UNDEFPTR = UndefPtr()

LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'exp2', 'log2', 'floor', 'ceil', 'trunc', 'round',
         'rint', 'nearbyint', 'cbrt', 'sinh', 'cosh', 'tanh', 'log10', 'expm1', 'log1p', 'roundeven'}
LIBM2 = {'atan2', 'pow', 'fmod', 'hypot', 'remainder'}


def vsort(t):
    if t == 'float':
        return 'f32'
    if t == 'double':
        return 'f64'
    if isinstance(t, tuple) and t[0] == 'i':
        return 'bool' if t[1] == 1 else t[1]
    return None


class Result:
    def __init__(self):
        self.kind = 'ret'      # ret | violation | assert | abort | stop
        self.msg = ''
        self.ret = None
        self.pc = []
        self.objs = {}
        self.steps = 0
        self.funcs = set()
        self.decisions = []
        self.where = ''


class Thrown(PathEnd):
    """an exception on its way up; ends the path if nothing catches it"""

    def __init__(self, obj, ti):
        PathEnd.__init__(self, 'throw', 'uncaught exception ' + ti)
        self.obj, self.ti = obj, ti


STDBASE = {'_ZTISt' + a: '_ZTISt' + b for a, b in (
    ('13runtime_error', '9exception'), ('11logic_error', '9exception'), ('9bad_alloc', '9exception'), ('8bad_cast', '9exception'), ('11range_error', '13runtime_error'),
    ('14overflow_error', '13runtime_error'), ('15underflow_error', '13runtime_error'), ('12out_of_range', '11logic_error'), ('16invalid_argument', '11logic_error'),
    ('12length_error', '11logic_error'), ('12domain_error', '11logic_error'), ('20bad_array_new_length', '9bad_alloc'))}


class Engine:
    def __init__(self, module, feasible=None, max_steps=2000000, max_paths=4096, fork_select=False):
        self.m = module
        self.feasible = feasible
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.stubs = {}
        self.total_steps = 0
        self.nforks = 0
        self.funcs_seen = set()
        self.heap_limit = None
        self.merge = False       # join the two sides of a branch into one path where possible
        self.cfgs = {}
        self.nmerges = 0
        self.typeids = {}
        self.split = None        # called where both sides are possible: true in the process that takes the other side
        self.did_split = False

    # ------------------------------------------------------------ driver
    def explore(self, fname, setup):
        """setup(engine) -> list of argument values; may call new_obj.  Yields Result per path."""
        work = [[]]
        n = 0
        while work:
            dec = work.pop()
            n += 1
            if n > self.max_paths:
                raise Unencodable('too many paths in ' + fname)
            r = self.run(fname, setup, dec, work)
            yield r

    def run(self, fname, setup, dec, work):
        self.dec = dec
        self.di = 0
        self.work = work
        self.next_addr = 0x100000
        self.globs = {}
        self.steps = 0
        self.pc = []
        self.stack = []
        self.taken = []
        self.journal = None
        self.spec = 0
        self.mfail = {}
        r = Result()
        self.res = r
        self.named = {}
        try:
            args = setup(self)
            f = self.m.funcs.get('@' + fname)
            if f is None:
                raise Unencodable('no function ' + fname)
            r.ret = self.call_func(f, args)
        except Violation as v:
            r.kind, r.msg = 'violation', '%s: %s' % (v.kind, v.msg)
            r.where = ' <- '.join(reversed(self.stack[-6:]))
        except PathEnd as v:
            r.kind, r.msg = v.kind, v.msg
            r.where = ' <- '.join(reversed(self.stack[-6:]))
        r.pc = self.pc
        r.objs = self.named
        r.steps = self.steps
        r.decisions = self.taken
        self.total_steps += self.steps
        return r

    def preparse(self, fname):
        """reads the bodies of everything reachable, so that copies of the process share them"""
        todo, seen = ['@' + fname], set()
        while todo:
            n = self.m.aliases.get(todo[-1], todo[-1])
            todo.pop()
            f = self.m.funcs.get(n)
            if n in seen or f is None or not f.lines:
                continue
            seen.add(n)
            try:
                self.m.body(f)
            except Exception:
                f.parsed = False
                continue
            for b in f.blocks.values():
                for i in b:
                    if i.op in ('call', 'invoke') and i.a[0][0] == 'g':
                        todo.append(i.a[0][1])

    # ------------------------------------------------------------ branching
    def decide(self, c):
        """c: bool term -> python bool, forking if symbolic"""
        if c.op == 'undef':
            raise Violation('uninitialised', 'branch on an uninitialised value')
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        # already decided on this path?
        nc = bnot(c)
        for p in self.pc:
            if p is c:
                return True
            if p is nc:
                return False
        if self.spec:
            # inside one side of a branch that is being joined: no forking
            if self.feasible is None or self.feasible(self.pc + [c]):
                if self.feasible is None or self.feasible(self.pc + [nc]):
                    raise MergeFail('fork')
                return True
            return False
        if self.di < len(self.dec):
            v = self.dec[self.di]
            self.di += 1
        else:
            self.nforks += 1
            ft = ff = True
            if self.feasible is not None:
                ft = self.feasible(self.pc + [c])
                ff = self.feasible(self.pc + [nc]) if ft else True
            if ft and ff:
                if self.split is not None and self.split():
                    v = False        # in a copy of this process that explores the other side
                    self.work.clear()
                else:
                    if not self.did_split:
                        self.work.append(self.taken + [False])
                    v = True
            else:
                v = ft
            self.di += 1
        self.taken.append(v)
        self.pc.append(c if v else nc)
        return v

    def concretize(self, t, what='value'):
        if t.op == 'const':
            return t.val
        if t.op == 'undef':
            raise Violation('uninitialised', 'uninitialised ' + what)
        cands = self.candidates(t)
        for v in cands:
            if self.decide(icmp('eq', t, bconst(v, t.sort))):
                return v
        raise Unencodable('symbolic %s: %r' % (what, t))

    def candidates(self, t):
        if getattr(self, 'enum', None) is None:
            raise Unencodable('symbolic index')
        c = self.enum(self.pc, t)
        if c is None:
            raise Unencodable('symbolic index')
        return sorted(c)

    # ------------------------------------------------------------ memory
    def new_obj(self, size, align, name, misalign=0, ro=False):
        # leave a guard gap; misalign gives a base address == misalign mod 64
        a = (self.next_addr + 63) // 64 * 64
        a += misalign
        self.next_addr = a + size + 64
        o = Obj(size, align, name, a, ro)
        return o

    def arg_floats(self, name, terms, misalign=0, extra_uninit=0):
        o = self.new_obj(4 * len(terms) + 4 * extra_uninit, 4, name, misalign)
        for i, t in enumerate(terms):
            if t is not None:
                o.cells[4 * i] = (4, t)
        self.named[name] = o
        return Ptr(o, 0)

    def conc(self, p):
        """the pointer itself, one index at a time"""
        try:
            v = self.concretize(p.idx, 'index')
        except Unencodable:
            # far too many places: most of them outside of the object
            w = p.idx.sort
            lo, hi = -(p.off // p.es), (p.obj.size - 1 - p.off) // p.es
            inside = TM.band2(icmp('sge', p.idx, bconst(lo, w)), icmp('sle', p.idx, bconst(hi, w)))
            if not self.decide(inside):
                raise Violation('out-of-bounds', 'access to %s (size %d), index outside of %d to %d' % (p.obj.name, p.obj.size, lo, hi))
            v = self.concretize(p.idx, 'index')
        return Ptr(p.obj, p.off + TM._s(v, p.idx.sort) * p.es)

    def chk(self, p, n, align, what):
        if p is UNDEFPTR:
            raise Violation('uninitialised', what + ' through uninitialised pointer')
        if isinstance(p, FnPtr):
            raise Unencodable('data access to function')
        if not isinstance(p, Ptr):
            raise Unencodable('%s through %r' % (what, p))
        o = p.obj
        if o is None:
            raise Violation('null-deref', what + ' through null pointer')
        if o.freed:
            raise Violation('use-after-free', '%s of freed object %s' % (what, o.name))
        if p.off < 0 or p.off + n > o.size:
            raise Violation('out-of-bounds', '%s of %d bytes at offset %d of %s (size %d)' % (what, n, p.off, o.name, o.size))
        if align > 1 and (o.addr + p.off) % align:
            raise Violation('misaligned', '%s with align %d at %s+%d (object alignment %d)' % (what, align, o.name, p.off, o.align))
        return o

    def store_cell(self, o, off, n, v):
        if self.journal is not None:
            self.touch(o)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # remove overlapped
        for k in range(off - 15, off + n):
            c = cells.get(k)
            if c is None or k + c[0] <= off:
                continue
            del cells[k]
            if k < off or k + c[0] > off + n:
                if not isinstance(c[1], TM.T):
                    if c[1] is not NULL and not (isinstance(c[1], Ptr) and c[1].obj is None and c[1].off == 0):
                        continue      # the rest of an overwritten pointer is no value at all
                    c = (c[0], bconst(0, 64))
                b = tobits(c[1])
                for j in range(c[0]):
                    if not off <= k + j < off + n:
                        cells[k + j] = (1, extract(b, 8 * j + 7, 8 * j))
        cells[off] = (n, v)

    def load_cell(self, o, off, n, sort):
        """sort None -> pointer"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if sort is None:
                if isinstance(v, TM.T):
                    if v.op == 'undef':
                        return UNDEFPTR
                    if v.op == 'const':
                        return self.addr2ptr(v.val)
                    raise Unencodable('int loaded as pointer')
                return v
            if not isinstance(v, TM.T):
                if sort == 64:
                    return v   # pointer carried as i64
                raise Unencodable('pointer loaded as %s' % (sort,))
            return self.conv(v, sort)
        # gather bytes
        parts = []
        k = off
        end = off + n
        while k < end:
            c = o.cells.get(k)
            if c is None:
                # inside an earlier cell?
                found = None
                for j in range(k - 1, k - 16, -1):
                    cc = o.cells.get(j)
                    if cc is not None:
                        if j + cc[0] > k:
                            found = (j, cc)
                        break
                if found is None:
                    parts.append(undef(8))
                    k += 1
                    continue
                j, cc = found
                if not isinstance(cc[1], TM.T):
                    raise Unencodable('partial pointer load')
                e = min(end, j + cc[0])
                parts.append(extract(tobits(cc[1]), 8 * (e - j) - 1, 8 * (k - j)))
                k = e
            else:
                if not isinstance(c[1], TM.T):
                    raise Unencodable('partial pointer load')
                e = min(end, k + c[0])
                b = tobits(c[1])
                if b.sort < 8:
                    b = zext(b, 8)
                parts.append(extract(b, 8 * (e - k) - 1, 0))
                k = e
        if sort is None:
            if all(x.op == 'undef' for x in parts):
                return UNDEFPTR
            if all(x.op == 'const' and x.val == 0 for x in parts):
                return NULL
            raise Unencodable('pointer load from bytes')
        r = parts[0]
        for x in parts[1:]:
            r = concat(x, r)
        return self.conv(r, sort)

    def conv(self, v, sort):
        if v.sort == sort:
            return v
        if v.op == 'undef':
            return undef(sort)
        b = tobits(v)
        if sort == 'bool':
            return extract_bool(b, 0)
        w = TM.width(sort)
        if b.sort < w:
            b = zext(b, w)
        elif b.sort > w:
            b = extract(b, w - 1, 0)
        if sort in ('f32', 'f64'):
            return b2f(b, sort)
        return b

    def load(self, p, ty, align=1):
        m = self.m
        ty = m.resolve(ty)
        n = m.size_align(ty)[0]
        if p.__class__ is SymPtr:
            p = self.conc(p)
        o = self.chk(p, n, align, 'load')
        return self.load_at(o, p.off, ty)

    def load_at(self, o, off, ty):
        m = self.m
        if ty == 'float':
            v = self.load_cell(o, off, 4, 'f32')
        elif isinstance(ty, tuple):
            k = ty[0]
            if k == 'i':
                n = m.size_align(ty)[0]
                s = 'bool' if ty[1] == 1 else ty[1]
                v = self.load_cell(o, off, n, s)
            elif k == 'vec':
                es = m.size_align(ty[2])[0]
                if ty[2] == ('i', 1):
                    raise Unencodable('load <n x i1>')
                v = [self.load_at(o, off + i * es, ty[2]) for i in range(ty[1])]
            elif k == 'named':
                v = self.load_at(o, off, m.resolve(ty))
            elif k == 'struct':
                v = [self.load_at(o, off + m.field_off(ty, i), e) for i, e in enumerate(ty[1])]
            elif k == 'arr':
                es = m.size_align(ty[2])[0]
                v = [self.load_at(o, off + i * es, ty[2]) for i in range(ty[1])]
            else:
                raise Unencodable('load %r' % (ty,))
        elif ty == 'double':
            v = self.load_cell(o, off, 8, 'f64')
        elif ty == 'ptr':
            v = self.load_cell(o, off, 8, None)
        else:
            raise Unencodable('load %r' % (ty,))
        return v

    def store(self, p, ty, v, align=1):
        m = self.m
        ty = m.resolve(ty)
        n = m.size_align(ty)[0]
        if p.__class__ is SymPtr:
            p = self.conc(p)
        o = self.chk(p, n, align, 'store')
        if o.ro:
            raise Violation('write-to-constant', 'store to %s' % o.name)
        self.store_at(o, p.off, ty, v)

    def store_at(self, o, off, ty, v):
        m = self.m
        if ty == 'float':
            self.store_cell(o, off, 4, v)
        elif ty == 'double' or ty == 'ptr':
            self.store_cell(o, off, 8, v)
        elif isinstance(ty, tuple):
            k = ty[0]
            if k == 'i':
                n = m.size_align(ty)[0]
                if isinstance(v, TM.T):
                    if v.sort == 'bool':
                        v = zext(v, 8)
                    elif v.sort != n * 8:
                        v = zext(v, n * 8)
                self.store_cell(o, off, n, v)
            elif k == 'vec' or k == 'arr':
                es = m.size_align(ty[2])[0]
                for i in range(ty[1]):
                    self.store_at(o, off + i * es, ty[2], v[i])
            elif k == 'named':
                self.store_at(o, off, m.resolve(ty), v)
            elif k == 'struct':
                for i, e in enumerate(ty[1]):
                    self.store_at(o, off + m.field_off(ty, i), e, v[i])
            else:
                raise Unencodable('store %r' % (ty,))
        else:
            raise Unencodable('store %r' % (ty,))

    def memcpy(self, d, s, n):
        if n == 0:
            return
        d, s = [self.conc(p) if p.__class__ is SymPtr else p for p in (d, s)]
        do = self.chk(d, n, 1, 'memcpy write')
        so = self.chk(s, n, 1, 'memcpy read')
        if do.ro:
            raise Violation('write-to-constant', 'memcpy to %s' % do.name)
        # split cells crossing the boundary
        items = []
        k = s.off
        end = s.off + n
        while k < end:
            c = so.cells.get(k)
            if c is not None and k + c[0] <= end:
                items.append((k - s.off, c[0], c[1]))
                k += c[0]
            else:
                v = self.load_cell(so, k, 1, 8)
                items.append((k - s.off, 1, v))
                k += 1
        for off, sz, v in items:
            self.store_cell(do, d.off + off, sz, v)

    # ------------------------------------------------------------ constants
    def const(self, vd, ty):
        k = vd[0]
        ty = self.m.resolve(ty)
        if k == 'int':
            s = vsort(ty)
            if s == 'bool':
                return boolc(vd[1] & 1)
            return bconst(vd[1], s)
        if k == 'fp':
            if ty == 'float':
                return fbits(TM.f32_bits(bits_f64(vd[1])) if not _isnan64(vd[1]) else _nan32(vd[1]), 'f32')
            return fbits(vd[1], 'f64')
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef_of(ty)
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'agg':
            return [self.const(v, t) for t, v in vd[1]]
        if k == 'str':
            return [bconst(b, 8) for b in vd[1]]
        if k == 'g':
            return self.glob(vd[1])
        if k == 'cgep':
            return self.gep(vd[1], self.const(vd[2], 'ptr'), [self.const(v, t) for t, v in vd[3]])
        if k == 'ccast':
            v = self.const(vd[3], vd[2])
            return self.cast(vd[1], v, vd[2], vd[4])
        if k == 'cbin':
            return bop(vd[1], self.const(vd[3], vd[2]), self.const(vd[4], vd[2]))
        raise Unencodable('const %r' % (vd,))

    def undef_of(self, ty):
        ty = self.m.resolve(ty)
        s = vsort(ty)
        if s is not None:
            return undef(s)
        if ty == 'ptr':
            return UNDEFPTR
        if ty[0] in ('vec', 'arr'):
            return [self.undef_of(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'struct':
            return [self.undef_of(e) for e in ty[1]]
        raise Unencodable('undef %r' % (ty,))

    def zero_of(self, ty):
        ty = self.m.resolve(ty)
        s = vsort(ty)
        if s in ('f32', 'f64'):
            return fbits(0, s)
        if s == 'bool':
            return FALSE
        if s is not None:
            return bconst(0, s)
        if ty == 'ptr':
            return NULL
        if ty[0] in ('vec', 'arr'):
            return [self.zero_of(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'struct':
            return [self.zero_of(e) for e in ty[1]]
        raise Unencodable('zero %r' % (ty,))

    def glob(self, name):
        name = self.m.aliases.get(name, name)
        if name in self.m.funcs:
            return FnPtr(name)
        p = self.globs.get(name)
        if p is None:
            if name not in self.m.globals:
                raise Unencodable('global ' + name)
            ty, val, const, align = self.m.globals[name]
            n = self.m.size_align(ty)[0] if ty != 'opaque' else 64
            o = self.new_obj(n, align, name, 0, const)
            p = Ptr(o, 0)
            self.globs[name] = p
            if val is not None:
                # a global's first use may be inside of a branch being joined; its initial value is no effect of that branch
                j, self.journal = self.journal, None
                try:
                    self.store_at(o, 0, self.m.resolve(ty), self.const(val, ty))
                finally:
                    self.journal = j
        return p

    # ------------------------------------------------------------ ops
    def gep(self, ty, base, idx):
        m = self.m
        if base is UNDEFPTR:
            return UNDEFPTR
        if base.__class__ is SymPtr:
            if all(ix.op == 'const' for ix in idx):
                p = self.gep(ty, Ptr(base.obj, base.off), idx)
                return SymPtr(p.obj, p.off, base.idx, base.es)
            base = self.conc(base)
        if not isinstance(base, Ptr):
            raise Unencodable('gep on %r' % (base,))
        off = base.off
        first = True
        cur = ty
        for ix in idx:
            if first:
                es = m.size_align(cur)[0]
                i = self.sidx(ix)
                off += i * es
                first = False
                continue
            c = m.resolve(cur)
            if c[0] == 'struct':
                i = ix.val
                off += m.field_off(c, i)
                cur = c[1][i]
            elif c[0] in ('arr', 'vec'):
                i = self.sidx(ix)
                off += i * m.size_align(c[2])[0]
                cur = c[2]
            else:
                raise Unencodable('gep into %r' % (c,))
        return Ptr(base.obj, off)

    def sym_gep(self, ins, base, idx, force=False):
        """an address with one symbolic index that only loads use"""
        m = self.m
        if sum(x.op != 'const' for x in idx) != 1 or any(x.op == 'undef' for x in idx):
            return None
        f = m.funcs[self.stack[-1]]
        if f.loadonly is None:
            uses = {}
            for b in f.blocks.values():
                for i in b:
                    for n in set(re.findall(r'%(?:[\w.$-]+|"[^"]*")', i.text.split(' = ', 1)[-1])):
                        uses.setdefault(n.strip('%'), set()).add(i.op)
            f.loadonly = {n for n, o in uses.items() if o == {'load'}}
        if not force and (ins.res is None or ins.res.strip('%') not in f.loadonly):
            return None
        off, cur, var, es = base.off, ins.ty, None, 0
        for k, ix in enumerate(idx):
            if k:
                c = m.resolve(cur)
                if c[0] == 'struct':
                    off += m.field_off(c, ix.val)
                    cur = c[1][ix.val]
                    continue
                cur = c[2]
            n = m.size_align(cur)[0]
            if ix.op == 'const':
                off += TM._s(ix.val, ix.sort) * n
            else:
                var, es = ix, n
        return SymPtr(base.obj, off, var, es)

    def load_sym(self, p, ty, align):
        n = self.m.size_align(self.m.resolve(ty))[0]
        w = p.idx.sort
        lo = -(p.off // p.es)
        hi = (p.obj.size - n - p.off) // p.es
        if lo > hi or hi - lo >= 256:
            v = TM._s(self.concretize(p.idx, 'index'), w)
            return self.load(Ptr(p.obj, p.off + v * p.es), ty, align)
        inside = TM.band2(icmp('sge', p.idx, bconst(lo, w)), icmp('sle', p.idx, bconst(hi, w)))
        if not self.decide(inside):
            raise Violation('out-of-bounds', 'load of %d bytes of %s (size %d), index outside of %d to %d' % (n, p.obj.name, p.obj.size, lo, hi))
        vals = [self.load(Ptr(p.obj, p.off + k * p.es), ty, align) for k in range(lo, hi + 1)]
        if not all(isinstance(v, TM.T) and v.op != 'undef' for v in vals):
            v = TM._s(self.concretize(p.idx, 'index'), w)
            return self.load(Ptr(p.obj, p.off + v * p.es), ty, align)
        r = vals[-1]
        for k, v in list(zip(range(lo, hi), vals))[::-1]:
            r = ite(icmp('eq', p.idx, bconst(k, w)), v, r)
        return r

    def sidx(self, ix):
        if ix.op != 'const':
            v = self.concretize(ix, 'index')
            return TM._s(v, ix.sort)
        return TM._s(ix.val, ix.sort)

    def ptr2int(self, p, w):
        if isinstance(p, Ptr):
            a = (p.obj.addr if p.obj else 0) + p.off
            return bconst(a, w)
        if p.__class__ is SymPtr:
            i = sext(p.idx, w) if p.idx.sort < w else p.idx
            return bop('add', bop('mul', i, bconst(p.es, w)), bconst(p.obj.addr + p.off, w))
        if isinstance(p, FnPtr):
            return bconst(self.fnaddr(p.name), w)
        raise Unencodable('ptrtoint')

    def fnaddr(self, name):
        # the functions of the module, in some order, far away from the data
        return FNBASE + 64 * self.m.fnorder().index(name)

    def cast(self, op, v, fty, tty):
        m = self.m
        fty = m.resolve(fty)
        tty = m.resolve(tty)
        if op == 'bitcast':
            return self.bitcast(v, fty, tty)
        if isinstance(fty, tuple) and fty[0] == 'vec':
            return [self.cast(op, x, fty[2], tty[2]) for x in v]
        if op == 'ptrtoint':
            return self.ptr2int(v, TM.width(vsort(tty)))
        if op == 'inttoptr':
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if v.op == 'const' and v.val == 0:
                return NULL
            if v.op == 'const':
                return self.addr2ptr(v.val)
            raise Unencodable('inttoptr')
        s = vsort(tty)
        if op == 'trunc':
            return trunc(v, s)
        if op == 'zext':
            return zext(v, s)
        if op == 'sext':
            return sext(v, s)
        if op == 'fptrunc':
            return fptrunc(v)
        if op == 'fpext':
            return fpext(v)
        if op in ('sitofp', 'uitofp'):
            return i2f(v, s, op == 'sitofp')
        if op in ('fptosi', 'fptoui'):
            if s == 'bool':
                raise Unencodable('fptoi1')
            return f2i(v, s, op == 'fptosi')
        raise Unencodable('cast ' + op)

    def addr2ptr(self, a):
        if a == 0:
            return NULL
        if a >= FNBASE and (a - FNBASE) % 64 == 0 and (a - FNBASE) // 64 < len(self.m.fnorder()):
            return FnPtr(self.m.fnorder()[(a - FNBASE) // 64])
        for o in list(self.named.values()) + [p.obj for p in self.globs.values()] + getattr(self, 'allobjs', []):
            if o.addr <= a <= o.addr + o.size:
                return Ptr(o, a - o.addr)
        raise Unencodable('inttoptr const')

    def bitcast(self, v, fty, tty):
        if fty == tty or fty == 'ptr':
            return v
        m = self.m
        src = v if isinstance(v, list) else [v]
        # all source lanes as bits
        bits = []
        for x in src:
            if not isinstance(x, TM.T):
                raise Unencodable('bitcast pointer')
            if x.sort == 'bool':
                bits.append(x)
            else:
                bits.append(f2b(x))
        if src[0].sort == 'bool':
            # <n x i1> -> in
            n = len(src)
            t = mkbits(src, n)
            if isinstance(tty, tuple) and tty[0] == 'i' and tty[1] == n:
                return t
            raise Unencodable('bitcast i1 vec')
        tl = tty[1] if isinstance(tty, tuple) and tty[0] == 'vec' else 1
        te = tty[2] if isinstance(tty, tuple) and tty[0] == 'vec' else tty
        ts = vsort(te)
        if ts == 'bool':
            allb = bits[0]
            for x in bits[1:]:
                allb = concat(x, allb)
            return [extract_bool(allb, i) for i in range(tl)]
        tw = TM.width(ts)
        sw = bits[0].sort
        out = []
        if tw == sw:
            out = bits
        elif tw > sw:
            k = tw // sw
            for i in range(tl):
                r = bits[i * k]
                for j in range(1, k):
                    r = concat(bits[i * k + j], r)
                out.append(r)
        else:
            k = sw // tw
            for b in bits:
                for j in range(k):
                    out.append(extract(b, tw * (j + 1) - 1, tw * j))
        if ts in ('f32', 'f64'):
            out = [b2f(x, ts) for x in out]
        return out if isinstance(tty, tuple) and tty[0] == 'vec' else out[0]

    # ------------------------------------------------------------ interpreter
    def call_func(self, f, args):
        m = self.m
        if not f.lines:
            return self.external(f.name, args, None)
        m.body(f)
        self.funcs_seen.add(f.name)
        if len(self.stack) > 200:
            raise PathEnd('stop', 'call depth')
        depth = len(self.stack)
        self.stack.append(f.name)
        env = {}
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at:
                n = m.size_align(at['byval'])[0]
                o = self.new_obj(n, at.get('align', 8), 'byval')
                self.memcpy(Ptr(o, 0), v, n)
                v = Ptr(o, 0)
            env[nm] = v
        try:
            return self.run_blocks(f, env, f.entry, None, None, False)[1]
        finally:
            import sys
            if sys.exc_info()[0] is None or self.spec:
                del self.stack[depth:]

    def run_blocks(self, f, env, bb, prev, stop, skip):
        """executes from block bb; ('ret', value), or ('stop', last block) when block `stop` is reached"""
        while True:
            if bb == stop:
                return 'stop', prev
            insts = f.blocks[bb]
            # phis first
            i = 0
            if insts[0].op == 'phi':
                vals = []
                while insts[i].op == 'phi':
                    if not skip:
                        vals.append((insts[i].res, self.phi(insts[i], prev, env)))
                    i += 1
                for r, v in vals:
                    env[r] = v
            skip = False
            n = len(insts)
            while i < n:
                ins = insts[i]
                i += 1
                self.steps += 1
                op = ins.op
                if op == 'br':
                    if ins.a is None:
                        prev, bb = bb, ins.x[0]
                    else:
                        c = self.val(ins.a[0], ('i', 1), env)
                        if self.merge and c.op not in ('const', 'undef') and not self.known(c):
                            j = self.try_merge(f, env, bb, ins.x, c)
                            if j is not None:
                                prev, bb, skip = None, j, True
                                break
                        prev, bb = bb, (ins.x[0] if self.decide(c) else ins.x[1])
                    break
                if op == 'ret':
                    if ins.a is None:
                        return 'ret', None
                    return 'ret', self.val(ins.a[0], ins.ty, env)
                if op == 'switch':
                    c = self.val(ins.a[0], ins.ty, env)
                    dest = ins.x[0]
                    if self.merge and c.op not in ('const', 'undef') and ins.x[1]:
                        arms = [(icmp('eq', c, bconst(cv, c.sort)) if c.sort != 'bool' else (c if cv else bnot(c)), lb) for cv, lb in ins.x[1]]
                        other = TRUE
                        for g, _ in arms:
                            other = band2(other, bnot(g))
                        # arms that share a block are taken together
                        by = {}
                        for g, lb in arms + [(other, dest)]:
                            by[lb] = bor2(by[lb], g) if lb in by else g
                        arms = [(g, lb) for lb, g in by.items() if not any(p is bnot(g) for p in self.pc)]
                        j = self.try_merge_n(f, env, bb, arms) if len(arms) > 1 else None
                        if j is not None:
                            prev, bb, skip = None, j, True
                            break
                    grp = {}
                    for cv, lb in ins.x[1]:
                        cond = icmp('eq', c, bconst(cv, c.sort)) if c.sort != 'bool' else (c if cv else bnot(c))
                        grp[lb] = bor2(grp[lb], cond) if lb in grp else cond
                    for lb, cond in grp.items():
                        if lb != dest and self.decide(cond):
                            dest = lb
                            break
                    prev, bb = bb, dest
                    break
                if op == 'unreachable':
                    raise Violation('unreachable', 'reached unreachable')
                if op == 'invoke':
                    depth = len(self.stack)
                    try:
                        v = self.do_call(ins, env)
                    except Thrown as t:
                        pad = next(x for x in f.blocks[ins.x[1]] if x.op != 'phi')
                        sel = self.selector(t.ti, pad.x)
                        if sel is None:
                            raise
                        del self.stack[depth:]
                        self.flying = t
                        env[pad.res] = [t.obj, bconst(sel, 32)]
                        prev, bb = bb, ins.x[1]
                        break
                    if ins.res:
                        env[ins.res] = v
                    prev, bb = bb, ins.x[0]
                    break
                if op == 'landingpad':
                    continue
                if op == 'resume':
                    raise self.flying
                v = self.exec(ins, env)
                if ins.res is not None:
                    env[ins.res] = v
            if self.steps > self.max_steps:
                raise PathEnd('stop', 'step bound')

    # ------------------------------------------------------------ exceptions
    def selector(self, ti, clauses):
        """what a landing pad sees: the number of the matching type, 0 for cleanup, None if it is passed over"""
        for c in clauses:
            if c == 'cleanup':
                continue
            if c.startswith('filter'):
                raise Unencodable('exception specification')
            if c == 'null' or c[1:] == ti or c[1:] in self.bases(ti):
                return self.typeid(c)
        return 0 if 'cleanup' in clauses else None

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def bases(self, ti):
        r = []
        while ti in STDBASE:
            ti = STDBASE[ti]
            r.append(ti)
        if not r and ti != '_ZTISt9exception':
            raise Unencodable('exception of type ' + ti)
        return r

    def phi(self, ins, prev, env):
        for vd, lb in ins.a:
            if lb == prev:
                return self.val(vd, ins.ty, env)
        raise Unencodable('phi')

    # ------------------------------------------------------------ joining the two sides of a branch
    def known(self, c):
        nc = bnot(c)
        return any(p is c or p is nc for p in self.pc)

    def join_block(self, f, bb, succ):
        """nearest block that both successors reach, in an order of the acyclic control flow"""
        info = self.cfgs.get(f.name)
        if info is None:
            sc = {}
            for b, insts in f.blocks.items():
                t = insts[-1]
                sc[b] = list(t.x) if t.op == 'br' else [t.x[0]] + [l for _, l in t.x[1]] if t.op == 'switch' else [t.x[0]] if t.op == 'invoke' else []
            order, seen = [], set()
            st = [(f.entry, iter(sc[f.entry]))]
            seen.add(f.entry)
            onstack = {f.entry}
            back = set()
            while st:
                b, it = st[-1]
                for x in it:
                    if x in onstack:
                        back.add((b, x))
                    elif x not in seen:
                        seen.add(x)
                        onstack.add(x)
                        st.append((x, iter(sc[x])))
                        break
                else:
                    st.pop()
                    onstack.discard(b)
                    order.append(b)
            rank = {b: i for i, b in enumerate(reversed(order))}
            reach = {}
            for b in order:
                r = {b}
                for x in sc[b]:
                    if (b, x) not in back:
                        r |= reach[x]
                reach[b] = r
            info = self.cfgs[f.name] = (rank, reach, {})
        rank, reach, memo = info
        j = memo.get(bb)
        if j is None:
            c = frozenset(reach[succ[0]]).intersection(*[reach[x] for x in succ[1:]])
            j = memo[bb] = min(c, key=lambda b: rank[b]) if c else ''
        return j or None

    def touch(self, o):
        if self.journal is not None and id(o) not in self.journal:
            self.journal[id(o)] = (o, dict(o.cells))

    def side(self, f, env, bb, start, join, c):
        """one side of the branch, undone afterwards: (environment, last block, objects written)"""
        env = dict(env)
        outer, self.journal = self.journal, {}
        npc, depth, addr = len(self.pc), len(self.stack), self.next_addr
        self.pc.append(c)
        self.spec += 1
        ok = False
        try:
            kind, prev = self.run_blocks(f, env, start, bb, join, False)
            ok = kind == 'stop'
            if not ok:
                raise MergeFail('returns')
            return env, prev, {k: (o, o.cells) for k, (o, old) in self.journal.items()}
        except (Violation, PathEnd, Unencodable) as e:
            raise MergeFail(str(e))
        finally:
            for o, old in self.journal.values():
                o.cells = old
            self.journal = outer
            del self.pc[npc:]
            del self.stack[depth:]
            self.spec -= 1

    def try_merge(self, f, env, bb, succ, c):
        return self.try_merge_n(f, env, bb, [(c, succ[0]), (bnot(c), succ[1])])

    def try_merge_n(self, f, env, bb, arms):
        """arms: (condition, block), exclusive and exhaustive"""
        c = arms[0][0]
        join = self.join_block(f, bb, [b for _, b in arms])
        if join is None or self.mfail.get((f.name, bb), 0) >= 24:
            return None
        if self.spec > 24:
            raise MergeFail('depth')
        if self.merge == 'checked' and not all(self.feasible(self.pc + [g]) for g, _ in arms):
            return None
        try:
            sides = [(g,) + self.side(f, env, bb, b, join, g) for g, b in arms]
            new = {}
            for k in set().union(*[w for g, e, p, w in sides]):
                o = next(w[k] for g, e, p, w in sides if k in w)[0]
                cs = [w[k][1] if k in w else o.cells for g, e, p, w in sides]
                cells = {}
                for off in set(cs[0]).intersection(*cs[1:]):
                    acc = cs[-1][off]
                    for (g, e, p, w), x in reversed(list(zip(sides, cs))[:-1]):
                        a = x[off]
                        if a is acc or a == acc:
                            continue
                        if a[0] != acc[0]:
                            raise MergeFail('cell sizes')
                        acc = (a[0], self.join_val(g, a[1], acc[1]))
                    cells[off] = acc
                new[k] = (o, cells)
            phis = []
            for ins in f.blocks[join]:
                if ins.op != 'phi':
                    break
                acc = None
                for g, e, p, w in reversed(sides):
                    v = self.phi(ins, p, e)
                    acc = v if acc is None else self.join_val(g, v, acc)
                phis.append((ins.res, acc))
        except MergeFail:
            self.mfail[(f.name, bb)] = self.mfail.get((f.name, bb), 0) + 1
            return None
        for o, cells in new.values():
            self.touch(o)
            o.cells = cells
        for r, v in phis:
            env[r] = v
        self.nmerges += 1
        return join

    def join_val(self, c, a, b):
        if isinstance(a, TM.T) and isinstance(b, TM.T):
            if a is b:
                return a
            if a.op == 'undef' or b.op == 'undef':
                return undef(a.sort)
            if a.sort != b.sort:
                b = self.conv(b, a.sort)
            return ite(c, a, b)
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.join_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off == b.off or a is b:
            return a
        raise MergeFail('pointers')

    def val(self, vd, ty, env):
        if vd[0] == 'l':
            return env[vd[1]]
        return self.const(vd, ty)

    def exec(self, ins, env):
        op = ins.op
        val = self.val
        if op == 'load':
            p = val(ins.a[0], 'ptr', env)
            return self.load(p, ins.ty, ins.x) if p.__class__ is not SymPtr else self.load_sym(p, ins.ty, ins.x)
        if op == 'store':
            self.store(val(ins.a[1], 'ptr', env), ins.ty, val(ins.a[0], ins.ty, env), ins.x)
            return None
        if op == 'alloca':
            n = val(ins.a[0], ('i', 32), env).val * self.m.size_align(ins.ty)[0]
            o = self.new_obj(n, ins.x or 16, 'alloca:' + (ins.res or ''))
            return Ptr(o, 0)
        if op == 'getelementptr':
            b = val(ins.a[0], 'ptr', env)
            idx = [val(v, t, env) for t, v in ins.a[1]]
            if any(x.op != 'const' for x in idx if isinstance(x, TM.T)) and isinstance(b, Ptr) and b.obj is not None:
                p = self.sym_gep(ins, b, idx)
                if p is not None:
                    return p
                try:
                    return self.gep(ins.ty, b, idx)
                except Unencodable:
                    p = self.sym_gep(ins, b, idx, True)
                    if p is None:
                        raise
                    return p
            return self.gep(ins.ty, b, idx)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a = val(ins.a[0], ins.ty, env)
            b = val(ins.a[1], ins.ty, env)
            if isinstance(a, list):
                return [fop(op, x, y) for x, y in zip(a, b)]
            return fop(op, a, b)
        if op == 'insertelement':
            v = list(val(ins.a[0], ins.ty, env))
            e = val(ins.a[1], ins.ty[2], env)
            i = val(ins.a[2], ins.x, env)
            i = i.val if i.op == 'const' else self.concretize(i)
            if i >= len(v):
                return self.undef_of(ins.ty)
            v[i] = e
            return v
        if op == 'extractelement':
            v = val(ins.a[0], ins.ty, env)
            i = val(ins.a[1], ins.x, env)
            i = i.val if i.op == 'const' else self.concretize(i)
            return v[i] if i < len(v) else self.undef_of(self.m.resolve(ins.ty)[2])
        if op == 'shufflevector':
            a = val(ins.a[0], ins.ty, env)
            b = val(ins.a[1], ins.ty, env)
            mt, md = ins.x
            ab = a + b
            out = []
            if md[0] == 'zero':
                idx = [0] * mt[1]
            elif md[0] == 'undef':
                idx = [None] * mt[1]
            else:
                idx = [None if v[0] == 'undef' else v[1] for _, v in md[1]]
            es = ins.ty[2]
            for k in idx:
                out.append(undef(vsort(es)) if k is None else ab[k])
            return out
        if op == 'bitcast':
            return self.bitcast(val(ins.a[0], ins.x, env), self.m.resolve(ins.x), self.m.resolve(ins.ty))
        if op == 'call':
            return self.do_call(ins, env)
        if op == 'fneg':
            a = val(ins.a[0], ins.ty, env)
            return [fneg(x) for x in a] if isinstance(a, list) else fneg(a)
        if op == 'fcmp':
            a = val(ins.a[0], ins.ty, env)
            b = val(ins.a[1], ins.ty, env)
            if isinstance(a, list):
                return [fcmp(ins.x, x, y) for x, y in zip(a, b)]
            return fcmp(ins.x, a, b)
        if op == 'icmp':
            a = val(ins.a[0], ins.ty, env)
            b = val(ins.a[1], ins.ty, env)
            if isinstance(a, list):
                return [icmp(ins.x, x, y) for x, y in zip(a, b)]
            if isinstance(a, TM.T) and isinstance(b, TM.T):
                return icmp(ins.x, a, b)
            return self.ptrcmp(ins.x, a, b)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = val(ins.a[0], ins.ty, env)
            b = val(ins.a[1], ins.ty, env)
            if isinstance(a, list):
                return [bop(op, x, y) for x, y in zip(a, b)]
            if not isinstance(a, TM.T):
                a = self.ptr2int(a, 64)
            if not isinstance(b, TM.T):
                b = self.ptr2int(b, 64)
            if op in ('udiv', 'sdiv', 'urem', 'srem') and b.op == 'const' and b.val == 0:
                raise Violation('div-by-zero', ins.text)
            return bop(op, a, b)
        if op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
                  'inttoptr', 'addrspacecast'):
            v = val(ins.a[0], ins.x, env)
            if not isinstance(v, (TM.T, list)) and op in ('trunc', 'zext', 'sext'):
                v = self.ptr2int(v, 64)
            return self.cast(op, v, ins.x, ins.ty)
        if op == 'select':
            c = val(ins.a[0], ins.x, env)
            a = val(ins.a[1], ins.ty, env)
            b = val(ins.a[2], ins.ty, env)
            return self.select(c, a, b)
        if op == 'extractvalue':
            v = val(ins.a[0], None, env)
            for i in ins.x:
                v = v[i]
            return v
        if op == 'insertvalue':
            v = val(ins.a[0], ins.ty, env) if ins.a[0][0] == 'l' else None
            if v is None:
                v = self.agg_const(ins)
            e = val(ins.a[1], self.insert_ty(ins), env)
            return self.setpath(v, ins.x, e)
        if op == 'freeze':
            a = val(ins.a[0], ins.ty, env)
            return a
        if op == 'fence':
            return None
        if op == 'frem':
            a = val(ins.a[0], ins.ty, env)
            b = val(ins.a[1], ins.ty, env)
            if isinstance(a, list):
                raise Unencodable('vector frem')
            return fcall('fmod', [a, b], a.sort)
        raise Unencodable('inst: ' + ins.text)

    def agg_const(self, ins):
        # insertvalue {..} poison, ...
        t = ins.text
        mm = re.search(r'insertvalue (.*?) (poison|undef|zeroinitializer),', t)
        from irparse import P, tokenize, parse_type
        ty = parse_type(P(tokenize(mm.group(1))))
        return self.undef_of(ty)

    def insert_ty(self, ins):
        from irparse import P, tokenize, parse_type
        # type of the inserted element: second operand
        toks = P(tokenize(ins.text.split('insertvalue', 1)[1]))
        t = parse_type(toks)
        t = self.m.resolve(t)
        for i in ins.x:
            t = self.m.resolve(t[1][i] if t[0] == 'struct' else t[2])
        return t

    def setpath(self, v, path, e):
        v = list(v)
        if len(path) == 1:
            v[path[0]] = e
        else:
            v[path[0]] = self.setpath(v[path[0]], path[1:], e)
        return v

    def select(self, c, a, b):
        if isinstance(c, list):
            return [self.select(x, y, z) for x, y, z in zip(c, a, b)]
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, TM.T):
            return ite(c, a, b)
        if isinstance(a, list):
            return [self.select(c, y, z) for y, z in zip(a, b)]
        return a if self.decide(c) else b

    def symptrcmp(self, pred, a, b):
        # within one object an address does not wrap around: offsets compare as signed numbers
        es = [p.es for p in (a, b) if p.__class__ is SymPtr]
        w = max(p.idx.sort for p in (a, b) if p.__class__ is SymPtr)
        d = b.off - a.off
        pr = pred if pred in ('eq', 'ne') else 's' + pred[1:]
        if len(set(es)) == 1 and d % es[0] == 0:
            # (a.off + i es) ? (b.off + j es)  <=>  i ? j + (b.off - a.off) / es
            k = d // es[0]
            i, j = [(sext(p.idx, w) if p.idx.sort < w else p.idx) if p.__class__ is SymPtr else bconst(0, w) for p in (a, b)]
            return icmp(pr, i, bop('add', j, bconst(k, w)))
        if pred in ('eq', 'ne') and len(set(es)) == 1:
            return boolc(pred == 'ne')
        x, y = [bop('add', bop('mul', sext(p.idx, 64) if p.idx.sort < 64 else p.idx, bconst(p.es, 64)), bconst(p.off, 64))
                if p.__class__ is SymPtr else bconst(p.off, 64) for p in (a, b)]
        return icmp(pr, x, y)

    def ptrcmp(self, pred, a, b):
        def key(p):
            if isinstance(p, TM.T):
                if p.op == 'const':
                    return p.val
                raise Unencodable('ptr cmp')
            if isinstance(p, FnPtr):
                return self.fnaddr(p.name)
            if p is UNDEFPTR:
                raise Violation('uninitialised', 'comparison of uninitialised pointer')
            return (p.obj.addr if p.obj else 0) + p.off
        if pred in ('eq', 'ne') and (a.__class__ is SymPtr and b is NULL or b.__class__ is SymPtr and a is NULL):
            return boolc(pred == 'ne')
        if SymPtr in (a.__class__, b.__class__) and all(p.__class__ in (SymPtr, Ptr) for p in (a, b)) and a.obj is b.obj:
            return self.symptrcmp(pred, a, b)
        a, b = [self.conc(p) if p.__class__ is SymPtr else p for p in (a, b)]
        x, y = key(a), key(b)
        pr = pred if pred in ('eq', 'ne') else pred[1:]
        return boolc({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr])

    # ------------------------------------------------------------ calls
    def do_call(self, ins, env):
        callee, args = ins.a
        if callee[0] == 'l':
            fp = env[callee[1]]
            if not isinstance(fp, FnPtr):
                raise Unencodable('indirect call')
            name = fp.name
        elif callee[0] == 'g':
            name = self.m.aliases.get(callee[1], callee[1])
        else:
            raise Unencodable('call ' + ins.text)
        if name.startswith('@llvm.') and 'eh.typeid' not in name:
            if name.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.experimental.noalias', '@llvm.assume',
                                '@llvm.prefetch', '@llvm.donothing', '@llvm.stacksave', '@llvm.stackrestore')):
                return NULL if 'stacksave' in name else None
            vals = [self.val(v, t, env) for t, v, at in args]
            return self.intrinsic(name, vals, ins.ty)
        vals = [self.val(v, t, env) for t, v, at in args]
        st = self.stubs.get(name)
        if st is not None:
            return st(self, vals)
        f = self.m.funcs.get(name)
        if f is not None and f.lines:
            return self.call_func(f, vals)
        # a harness stands in for what the library only declares
        f = self.m.funcs.get('@vt_alias_' + name[1:])
        if f is not None:
            return self.call_func(f, vals)
        return self.external(name, vals, ins.ty)

    def lib(self, name, args, sort):
        if name == 'sqrt':
            return fun('fsqrt', args[0])
        if name == 'fabs':
            return fabs(args[0])
        if name == 'copysign':
            x, y = args
            return ite(fsignbit(y), fneg(fabs(x)), fabs(x))
        if name in ('fmax', 'maxnum'):
            x, y = args
            return ite(bor2(fcmp('olt', x, y), fcmp('uno', x, x)), y, x)
        if name in ('fmin', 'minnum'):
            x, y = args
            return ite(bor2(fcmp('olt', y, x), fcmp('uno', x, x)), y, x)
        if name == 'fma':
            return fop('fadd', fop('fmul', args[0], args[1]), args[2])     # its single rounding is outside, like all rounding
        if name in LIBM1 and len(args) == 1 or name in LIBM2 and len(args) == 2:
            return fcall(name, args, sort)
        return None

    def external(self, name, args, ty):
        n = name[1:]
        if n in ('memcpy', 'memmove'):
            self.memcpy(args[0], args[1], self.concretize(args[2], 'size'))
            return args[0]
        if n == 'memset':
            self.memset(args[0], args[1], self.concretize(args[2], 'size'))
            return args[0]
        if n in ('sincosf', 'sincos'):
            s = 'f32' if n == 'sincosf' else 'f64'
            t = 'float' if s == 'f32' else 'double'
            self.store(args[1], t, fcall('sin', [args[0]], s))
            self.store(args[2], t, fcall('cos', [args[0]], s))
            return None
        if args and isinstance(args[0], TM.T):
            for base, sort in ((n[:-1], 'f32') if n.endswith('f') else ('', ''), (n, 'f64')):
                if base and args[0].sort == sort:
                    r = self.lib(base, args, sort)
                    if r is not None:
                        return r
        if n == '__assert_fail':
            raise PathEnd('assert', 'assertion failed')
        if n == '__cxa_throw':
            raise Thrown(args[0], args[1].obj.name.lstrip('@'))
        if n == '__cxa_rethrow':
            raise self.flying
        if n == '__cxa_begin_catch':
            return args[0]
        if n in ('__cxa_end_catch', '__cxa_free_exception'):
            return None
        if n == 'llvm.eh.typeid.for':
            return bconst(self.typeid('@' + args[0].obj.name.lstrip('@')), 32)
        if n == '_ZNKSt13runtime_error4whatEv':
            raise Unencodable(n)
        if n == '__cxa_allocate_exception':
            return Ptr(self.new_obj(max(self.concretize(args[0], 'size'), 16), 16, 'exception'), 0)
        if n.startswith(('_ZNSt13runtime_errorC', '_ZNSt11logic_errorC', '_ZNSt12out_of_rangeC', '_ZNSt16invalid_argumentC')):
            return None
        if n in ('abort', 'exit', '_exit', '_ZSt9terminatev') or n.startswith('_ZSt2') and 'throw' in n or n.startswith('_ZSt') and '__throw' in n:
            raise PathEnd('abort', n)
        if n in ('malloc', '_Znwm', '_Znam'):
            sz = self.concretize(args[0], 'size')
            if self.heap_limit is not None and sz > self.heap_limit:
                raise PathEnd('abort', 'allocation of %d bytes' % sz)
            return Ptr(self.new_obj(sz, 16, 'heap'), 0)
        if n in ('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm'):
            p = args[0]
            if isinstance(p, Ptr) and p.obj is not None:
                if p.obj.freed:
                    raise Violation('double-free', p.obj.name)
                if p.off != 0:
                    raise Violation('bad-free', p.obj.name)
                if self.spec:
                    raise MergeFail('free')
                p.obj.freed = True
            return None
        if n == 'strlen':
            k = 0
            p = args[0]
            while True:
                c = self.load(Ptr(p.obj, p.off + k), ('i', 8))
                if self.decide(icmp('eq', c, bconst(0, 8))):
                    return bconst(k, 64)
                k += 1
        if n in ('memchr', 'strchr', 'rawmemchr'):
            k = self.concretize(args[2], 'size') if n == 'memchr' else 1 << 20
            p, b = args[0], trunc(args[1], 8)
            hay = []
            while b.op != 'const' and len(hay) < min(k, 64):
                c = self.load(Ptr(p.obj, p.off + len(hay)), ('i', 8))
                if c.op != 'const':
                    hay = None
                    break
                hay.append(c.val)
                if n == 'strchr' and c.val == 0:
                    break
            if hay and (len(hay) == k or n == 'strchr' and hay[-1] == 0):
                # one place to look in: found or not, at a position that depends on the byte
                found, at = FALSE, bconst(0, 64)
                for j in range(len(hay) - 1, -1, -1):
                    e = icmp('eq', b, bconst(hay[j], 8))
                    found, at = bor2(e, found), ite(e, bconst(j, 64), at)
                return SymPtr(p.obj, p.off, at, 1) if self.decide(found) else NULL
            for j in range(k):
                c = self.load(Ptr(p.obj, p.off + j), ('i', 8))
                if self.decide(icmp('eq', c, b)):
                    return Ptr(p.obj, p.off + j)
                if n == 'strchr' and self.decide(icmp('eq', c, bconst(0, 8))):
                    return NULL
            return NULL
        if n in CTYPE or n in ('toupper', 'tolower'):
            return self.ctype(n, args[0])
        if n in ('abs', 'labs', 'llabs'):
            x = args[0]
            return ite(icmp('slt', x, bconst(0, x.sort)), bop('sub', bconst(0, x.sort), x), x)
        if n == '__errno_location':
            p = self.globs.get('@errno')
            if p is None:
                p = self.globs['@errno'] = Ptr(self.new_obj(4, 4, 'errno'), 0)
                p.obj.cells[0] = (4, bconst(0, 32))
            return p
        if n in ('memcmp', 'bcmp', 'strncmp', 'strcmp'):
            k = 1 << 20 if n == 'strcmp' else self.concretize(args[2], 'size')
            for j in range(k):
                x = self.load(Ptr(args[0].obj, args[0].off + j), ('i', 8))
                y = self.load(Ptr(args[1].obj, args[1].off + j), ('i', 8))
                if not self.decide(icmp('eq', x, y)):
                    return ite(icmp('ult', x, y), bconst(-1, 32), bconst(1, 32))
                if n[0] == 's' and self.decide(icmp('eq', x, bconst(0, 8))):
                    break
            return bconst(0, 32)
        if n == '__cxa_guard_acquire':
            g = self.load(args[0], ('i', 8))
            return ite(icmp('eq', g, bconst(0, 8)), bconst(1, 32), bconst(0, 32))
        if n == '__cxa_guard_release':
            self.store(args[0], ('i', 8), bconst(1, 8))
            return None
        if n == '__cxa_atexit':
            return bconst(0, 32)
        raise Unencodable('external function ' + n)

    def ctype(self, n, c):
        def rng(a, b, x=c):
            return icmp('ult', bop('sub', x, bconst(ord(a), c.sort)), bconst(ord(b) - ord(a) + 1, c.sort))
        if n in ('toupper', 'tolower'):
            t = rng('a', 'z') if n == 'toupper' else rng('A', 'Z')
            return ite(t, bop('xor', c, bconst(32, c.sort)), c)
        r = FALSE
        for a, b in CTYPE[n]:
            r = bor2(r, rng(a, b))
        return zext(r, 32)

    def memset(self, d, v, n):
        if n == 0:
            return
        o = self.chk(d, n, 1, 'memset')
        if v.op == 'const' and v.val == 0 or v.op == 'const':
            b = v.val & 255
            off = d.off
            end = off + n
            while off < end:
                k = 4 if (off % 4 == 0 and off + 4 <= end) else 1
                self.store_cell(o, off, k, bconst(int.from_bytes(bytes([b] * k), 'little'), 8 * k))
                off += k
        else:
            b = trunc(v, 8)
            for j in range(n):
                self.store_cell(o, d.off + j, 1, b)

    def intrinsic(self, name, a, ty):
        n = name[6:]
        if n.startswith(('memcpy.', 'memmove.')):
            self.memcpy(a[0], a[1], self.concretize(a[2], 'size'))
            return None
        if n.startswith('memset.'):
            self.memset(a[0], a[1], self.concretize(a[2], 'size'))
            return None
        if n.startswith('x86.'):
            return self.x86(n, a)
        base = n.split('.')[0]
        if base in ('fmuladd', 'fma'):
            return self.vmap(lambda x, y, z: fop('fadd', fop('fmul', x, y), z), a)
        if base in ('sqrt', 'fabs', 'copysign', 'maxnum', 'minnum', 'sin', 'cos', 'pow', 'exp', 'log', 'floor', 'ceil',
                    'trunc', 'rint', 'nearbyint', 'round', 'exp2', 'roundeven', 'log2', 'log10'):
            def g(*xs):
                r = self.lib(base, list(xs), xs[0].sort)
                if r is None:
                    raise Unencodable(name)
                return r
            return self.vmap(g, a)
        if base == 'vector' and n.startswith('vector.reduce.fadd'):
            r = a[0]
            for x in a[1]:
                r = fop('fadd', r, x)
            return r
        if base == 'vector' and n.startswith(('vector.reduce.and', 'vector.reduce.or', 'vector.reduce.add', 'vector.reduce.xor', 'vector.reduce.mul')):
            o = n.split('.')[2]
            r = a[0][0]
            for x in a[0][1:]:
                r = bop(o, r, x)
            return r
        if base == 'trap' or base == 'ubsantrap':
            raise PathEnd('abort', 'trap')
        if base == 'expect':
            return a[0]
        if base == 'abs':
            def ab(x):
                return ite(icmp('slt', x, bconst(0, x.sort)), bop('sub', bconst(0, x.sort), x), x)
            return self.vmap(ab, a[:1])
        if base in ('smax', 'smin', 'umax', 'umin'):
            pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[base]
            return self.vmap(lambda x, y: ite(icmp(pr, x, y), x, y), a)
        if base in ('umul', 'uadd', 'usub', 'sadd', 'ssub', 'smul') and 'with.overflow' in n:
            x, y = a
            w = x.sort
            sg = base[0] == 's'
            o = {'mul': 'mul', 'add': 'add', 'sub': 'sub'}[base[1:]]
            ex = sext if sg else zext
            W = 2 * w
            r = bop(o, ex(x, W), ex(y, W))
            lo = bop(o, x, y)
            return [lo, bnot(icmp('eq', r, ex(lo, W)))]
        if base == 'ctpop':
            def pc(x):
                r = bconst(0, x.sort)
                for i in range(x.sort):
                    r = bop('add', r, zext(extract(x, i, i), x.sort) if x.sort > 1 else x)
                return r
            return self.vmap(pc, a)
        if base in ('cttz', 'ctlz'):
            def cz(x):
                w = x.sort
                r = bconst(w, w)
                for i in (range(w - 1, -1, -1) if base == 'cttz' else range(w)):
                    r = ite(extract_bool(x, i), bconst(i if base == 'cttz' else w - 1 - i, w), r)
                return r
            return self.vmap(cz, a[:1])
        if base == 'bswap':
            def sw(x):
                r = extract(x, 7, 0)
                for i in range(8, x.sort, 8):
                    r = concat(r, extract(x, i + 7, i))
                return r
            return self.vmap(sw, a)
        if base in ('fshl', 'fshr'):
            def fs(x, y, k):
                w = x.sort
                k = bop('and', k, bconst(w - 1, w))
                b = concat(x, y)
                if base == 'fshl':
                    return extract(bop('shl', b, zext(k, 2 * w)), 2 * w - 1, w)
                return extract(bop('lshr', b, zext(k, 2 * w)), w - 1, 0)
            return self.vmap(fs, a)
        if base == 'is':
            pass
        if base == 'is.fpclass' or n.startswith('is.fpclass'):
            x, mask = a[0], a[1].val

            def cls(x):
                r = FALSE
                w = TM.width(x.sort)
                if x.sort != 'f32':
                    raise Unencodable('is.fpclass f64')
                inf = fbits(0x7f800000)
                nan = fcmp('uno', x, x)
                isinf = fcmp('oeq', fabs(x), inf)
                sg = fsignbit(x)
                zero = fcmp('oeq', x, fbits(0))
                minn = fbits(0x00800000)
                sub = band2(bnot(zero), fcmp('olt', fabs(x), minn))
                norm = band2(fcmp('ole', minn, fabs(x)), fcmp('olt', fabs(x), inf))
                if mask & 3:
                    r = bor2(r, nan)
                for bit, c, s in ((4, isinf, True), (8, norm, True), (16, sub, True), (32, zero, True), (64, zero, False), (128, sub, False), (256, norm, False), (512, isinf, False)):
                    if mask & bit:
                        r = bor2(r, band2(c, sg if s else bnot(sg)))
                return r
            return self.vmap(cls, [x])
        raise Unencodable('intrinsic ' + name)

    def vmap(self, f, a):
        if isinstance(a[0], list):
            return [f(*xs) for xs in zip(*a)]
        return f(*a)

    def x86(self, n, a):
        Z = fbits(0)
        if n in ('x86.sse.rcp.ps', 'x86.sse.rsqrt.ps'):
            o = 'frcp' if 'rcp' in n else 'frsqrt'
            return [fun(o, x) for x in a[0]]
        if n in ('x86.sse.rcp.ss', 'x86.sse.rsqrt.ss'):
            o = 'frcp' if 'rcp' in n else 'frsqrt'
            return [fun(o, a[0][0])] + a[0][1:]
        if n in ('x86.sse.movmsk.ps', 'x86.sse2.movmsk.pd'):
            return mkbits([fsignbit(x) for x in a[0]], 32)
        if n == 'x86.sse2.pmovmskb.128':
            return mkbits([extract_bool(x, 7) for x in a[0]], 32)
        if n in ('x86.sse.cmp.ps', 'x86.sse.cmp.ss', 'x86.sse2.cmp.pd', 'x86.sse2.cmp.sd'):
            imm = a[2].val & 7
            pred = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord'][imm]
            w = TM.width(a[0][0].sort)
            srt = a[0][0].sort
            r = [b2f(sext(fcmp(pred, x, y), w), srt) for x, y in zip(a[0], a[1])]
            if n.endswith(('ss', 'sd')):
                return [r[0]] + a[0][1:]
            return r
        if n in ('x86.sse.comieq.ss', 'x86.sse.comilt.ss', 'x86.sse.comile.ss', 'x86.sse.comigt.ss', 'x86.sse.comige.ss', 'x86.sse.comineq.ss') or n.startswith('x86.sse.ucomi'):
            k = n.split('.')[2].replace('ucomi', '').replace('comi', '')
            pred = {'eq': 'oeq', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge', 'neq': 'une'}[k]
            return zext(fcmp(pred, a[0][0], a[1][0]), 32)
        if n in ('x86.sse.min.ps', 'x86.sse.max.ps', 'x86.sse.min.ss', 'x86.sse.max.ss'):
            lt = 'min' in n
            r = [ite(fcmp('olt', x, y) if lt else fcmp('olt', y, x), x, y) for x, y in zip(a[0], a[1])]
            if n.endswith('ss'):
                return [r[0]] + a[0][1:]
            return r
        if n == 'x86.sse3.hadd.ps':
            x, y = a
            return [fop('fadd', x[0], x[1]), fop('fadd', x[2], x[3]), fop('fadd', y[0], y[1]), fop('fadd', y[2], y[3])]
        if n == 'x86.sse3.hsub.ps':
            x, y = a
            return [fop('fsub', x[0], x[1]), fop('fsub', x[2], x[3]), fop('fsub', y[0], y[1]), fop('fsub', y[2], y[3])]
        if n == 'x86.sse3.addsub.ps':
            x, y = a
            return [fop('fsub', x[0], y[0]), fop('fadd', x[1], y[1]), fop('fsub', x[2], y[2]), fop('fadd', x[3], y[3])]
        if n == 'x86.sse41.dpps':
            x, y, imm = a
            imm = imm.val & 255
            t = [fop('fmul', x[i], y[i]) if (imm >> (4 + i)) & 1 else Z for i in range(4)]

            s = fop('fadd', self.addz(t[0], t[1]), self.addz(t[2], t[3])) if False else \
                self.addz(self.addz(t[0], t[1]), self.addz(t[2], t[3]))
            return [s if (imm >> i) & 1 else Z for i in range(4)]
        if n == 'x86.sse41.insertps':
            x, y, imm = a
            imm = imm.val & 255
            r = list(x)
            r[(imm >> 4) & 3] = y[(imm >> 6) & 3]
            return [Z if (imm >> i) & 1 else r[i] for i in range(4)]
        if n == 'x86.sse41.blendvps':
            x, y, mk_ = a
            return [ite(fsignbit(m), q, p) for p, q, m in zip(x, y, mk_)]
        if n in ('x86.sse41.round.ps', 'x86.sse41.round.ss'):
            imm = a[-1].val & 7
            nm = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rint'}[imm]
            if n.endswith('ps'):
                return [fcall(nm, [x], 'f32') for x in a[0]]
            return [fcall(nm, [a[1][0]], 'f32')] + a[0][1:]
        if n in ('x86.sse2.cvtps2dq', 'x86.sse.cvttss2si', 'x86.sse.cvtss2si', 'x86.sse2.cvttps2dq'):
            if 'tt' in n:
                r = [f2i(x, 32, True) for x in a[0]]
                return r[0] if 'ss2si' in n else r
            raise Unencodable(n)
        if n in ('x86.sse41.ptestz', 'x86.sse41.ptestc', 'x86.sse41.ptestnzc'):
            raise Unencodable(n)
        raise Unencodable('intrinsic ' + n)

    @staticmethod
    def addz(x, y):
        return fop('fadd', x, y)


def _isnan64(b):
    return (b & 0x7ff0000000000000) == 0x7ff0000000000000 and (b & 0xfffffffffffff) != 0


def _nan32(b):
    s = b >> 63
    m = (b >> 29) & 0x7fffff
    return (s << 31) | 0x7f800000 | (m or 0x400000)
