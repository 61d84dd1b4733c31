"""A tiny schema DSL with two back ends.

Every schema is described once and emitted twice: as a C++ type written with
the public s2s API only, and as an S-expression that the reference model in
sim/model.cpp interprets. The model never sees an s2s type and s2s never sees
the S-expression, so neither can inherit a mistake from the other.
"""

INT = {
    'u8': (1, 0), 'u16': (2, 0), 'u32': (4, 0), 'u64': (8, 0),
    'i8': (1, 1), 'i16': (2, 1), 'i32': (4, 1), 'i64': (8, 1),
    'f32': (4, 2), 'f64': (8, 2), 'ch': (1, 1),
}


def esc(v):
    return ''.join(ch if ch.isascii() and ch.isalnum() else '\\%03o' % ord(ch) for ch in v)


def sx(x):
    if isinstance(x, (list, tuple)):
        return '(' + ' '.join(sx(e) for e in x) + ')'
    return str(x)


# ---------------------------------------------------------------- expressions
# An expression is an int, '$k', or a tuple (op, args...). Every op works on
# 64-bit words; 's<' and friends compare as signed.
BIN = {'+': '+', '-': '-', '*': '*', '&': '&', '|': '|', '^': '^',
       '==': '==', '!=': '!=', '<': '<', '>': '>', '<=': '<=', '>=': '>='}
SBIN = {'s<': '<', 's>': '>', 's<=': '<=', 's>=': '>='}


def cpp_expr(e):
    if isinstance(e, bool):
        return '1ull' if e else '0ull'
    if isinstance(e, int):
        return '%dull' % (e & 0xffffffffffffffff)
    if isinstance(e, str):
        return 'sim::ex::num(a%s)' % e[1:]
    op = e[0]
    if op in BIN:
        return '(u64)(%s %s %s)' % (cpp_expr(e[1]), BIN[op], cpp_expr(e[2]))
    if op in SBIN:
        return '(u64)((i64)%s %s (i64)%s)' % (cpp_expr(e[1]), SBIN[op], cpp_expr(e[2]))
    if op in ('/', '%'):
        return 'sim::ex::%s(%s, %s)' % ({'/': 'div', '%': 'mod'}[op], cpp_expr(e[1]), cpp_expr(e[2]))
    if op == '<<':
        return '(u64)(%s << (%s & 63))' % (cpp_expr(e[1]), cpp_expr(e[2]))
    if op == '>>':
        return '(u64)(%s >> (%s & 63))' % (cpp_expr(e[1]), cpp_expr(e[2]))
    if op == 'and':
        return '(u64)(%s && %s)' % (cpp_expr(e[1]), cpp_expr(e[2]))
    if op == 'or':
        return '(u64)(%s || %s)' % (cpp_expr(e[1]), cpp_expr(e[2]))
    if op == 'not':
        return '(u64)(!%s)' % cpp_expr(e[1])
    a = 'a' + e[1][1:]
    if op == 'size':
        return 'sim::ex::size(%s)' % a
    if op == 'sum':
        return 'sim::ex::sum(%s)' % a
    if op == 'at':
        return 'sim::ex::at(%s, %d)' % (a, e[2])
    if op == 'has':
        return 'sim::ex::has(%s)' % a
    if op == 'val':
        return 'sim::ex::val(%s)' % a
    if op == 'idx':
        return 'sim::ex::idx(%s)' % a
    if op == 'mem':
        return 'sim::ex::num(%s["%s"_f])' % (a, e[2])
    if op == 'emem':      # sum over the elements of a sequence of records
        return 'sim::ex::emem(%s, [](const auto& r) { return sim::ex::num(r["%s"_f]); })' % (a, e[2])
    raise ValueError(e)


def ir_expr(e):
    if isinstance(e, bool):
        return '1' if e else '0'
    if isinstance(e, int):
        return str(e & 0xffffffffffffffff)
    if isinstance(e, str):
        return e
    out = [e[0]]
    for x in e[1:]:
        if isinstance(x, (tuple, int)) or (isinstance(x, str) and x.startswith('$')):
            out.append(ir_expr(x))
        else:
            out.append(x)
    return out


class Fn:
    """A callable over sibling fields. `ret` is what it returns when that is not
    what is asked of it (a mask for a bool); `args`, when given, makes it a plain
    function taking those types by value; `style` 'lambda' makes it a lambda."""

    def __init__(self, expr, *ids, ret=None, args=None, style=None):
        self.expr, self.ids, self.ret, self.args, self.style = expr, ids, ret, args, style


# ---------------------------------------------------------------- constraints
class Con:
    def __init__(self, op, *vals):
        self.op, self.vals = op, vals


def lt(v): return Con('lt', v)
def gt(v): return Con('gt', v)
def lte(v): return Con('lte', v)
def gte(v): return Con('gte', v)
def eq(v): return Con('eq', v)
def neq(v): return Con('neq', v)
def any_of(*v): return Con('any_of', *v)
def fun(expr): return Con('fun', expr)


# ---------------------------------------------------------------- size axis
class Lf:
    def __init__(self, id): self.id = id


class Lfs:
    def __init__(self, expr, *ids, **how): self.fn = Fn(expr, *ids, **how)


def lf(id): return Lf(id)
def lfs(expr, *ids, **how): return Lfs(expr, *ids, **how)


# ---------------------------------------------------------------- types
class Ty:
    """What a field or an alternative holds."""
    con = None
    size = None
    ceil = None
    fixed = True     # fixed-size: an eq constraint freezes it


class TInt(Ty):
    def __init__(self, t, w=None, con=None):
        self.t, self.con = t, con
        self.w = w if w is not None else INT[t][0]
        self.explicit = w is not None

    def cpp(self): return self.t
    def ir(self, c): return ['int', INT[self.t][0], INT[self.t][1], self.w]


class TArr(Ty):
    """std::array (or C array) of integers, any number of dimensions."""

    def __init__(self, t, dims, carr=False, con=None):
        self.t, self.dims, self.carr, self.con = t, list(dims), carr, con

    def cpp(self):
        s = self.t
        for d in reversed(self.dims):
            s = 'std::array<%s, %d>' % (s, d)
        return s

    def count(self):
        n = 1
        for d in self.dims:
            n *= d
        return n

    def ir(self, c): return ['arr', self.count(), INT[self.t][0], INT[self.t][1]]


class TFstr(Ty):
    def __init__(self, n, con=None): self.n, self.con = n, con
    def cpp(self): return 's2s::fixed_string<%d>' % self.n
    def ir(self, c): return ['raw', self.n + 1]


class TCstr(Ty):
    def __init__(self, n): self.n = n
    def ir(self, c): return ['raw', self.n + 1]


class TRec(Ty):
    fixed = False
    def __init__(self, r, con=None): self.r, self.con = r, con
    def cpp(self): return self.r
    def ir(self, c): return ['rec', self.r]


class TArec(Ty):
    fixed = False
    def __init__(self, r, n, con=None): self.r, self.n, self.con = r, n, con
    def cpp(self): return 'std::array<%s, %d>' % (self.r, self.n)
    def ir(self, c): return ['arec', self.n, self.r]


class TVar(Ty):
    fixed = False

    def _size_ir(self, c):
        if isinstance(self.size, Lf):
            return ['lf', self.size.id]
        return ['lfs', ir_expr(self.size.fn.expr)] + list(self.size.fn.ids)

    def _ceil_ir(self):
        return 'D' if self.ceil is None else self.ceil


class TStr(TVar):
    def __init__(self, size, con=None, ceil=None): self.size, self.con, self.ceil = size, con, ceil
    def cpp(self): return 'std::string'
    def ir(self, c): return ['str', self._size_ir(c), self._ceil_ir()]


class TVec(TVar):
    def __init__(self, t, size, con=None, ceil=None, dims=()):
        self.t, self.size, self.con, self.ceil, self.dims = t, size, con, ceil, list(dims)

    def elem(self):
        s = self.t
        for d in reversed(self.dims):
            s = 'std::array<%s, %d>' % (s, d)
        return s

    def cpp(self): return 'std::vector<%s>' % self.elem()

    def ir(self, c):
        n = 1
        for d in self.dims:
            n *= d
        return ['vec', n, INT[self.t][0], INT[self.t][1], self._size_ir(c), self._ceil_ir()]


class TVrec(TVar):
    def __init__(self, r, size, con=None, ceil=None): self.r, self.size, self.con, self.ceil = r, size, con, ceil
    def cpp(self): return 'std::vector<%s>' % self.r
    def ir(self, c): return ['vrec', self.r, self._size_ir(c), self._ceil_ir(), c.esz(self.r)]


class TUnion(Ty):
    fixed = False
    """mode: ('field', id) | ('compute', rtype, Fn) | ('ladder',).
    alts: list of (selector, Ty); selector is a match value, or a Fn for ladders."""

    def __init__(self, mode, alts, con=None):
        self.mode, self.alts, self.con = mode, alts, con

    def cpp(self):
        return 'std::variant<%s>' % ', '.join(t.cpp() for _, t in self.alts)

    def ir(self, c):
        m = self.mode
        if m[0] == 'field':
            ded = ['field', m[1]]
        elif m[0] == 'compute':
            ded = ['compute', INT[m[1]][0], INT[m[1]][1], ir_expr(m[2].expr)] + list(m[2].ids)
        else:
            ded = ['ladder']
        alts = []
        for sel, t in self.alts:
            s = [ir_expr(sel.expr)] + list(sel.ids) if isinstance(sel, Fn) else sel & 0xffffffffffffffff
            alts.append(['alt', s, t.ir(c), c.con_ir(t)])
        return ['union', ded] + alts


# ---------------------------------------------------------------- fields
class F:
    def __init__(self, id, ty, pred=None, hints=None, magic=None, order=0):
        self.id, self.ty, self.pred = id, ty, pred
        self.hints, self.magic, self.order = hints, magic, order


def I(id, t, w=None, con=None, hints=None, order=0): return F(id, TInt(t, w, con), hints=hints, order=order)
def MagN(id, t, v, w=None): return F(id, TInt(t, w, eq(v)), magic='n')
def MagB(id, vals): return F(id, TArr('u8', [len(vals)], con=eq(list(vals))), magic='b')
def MagS(id, s): return F(id, TFstr(len(s), eq(s)), magic='s')
def Arr(id, t, dims, con=None): return F(id, TArr(t, dims, con=con))
def CArr(id, t, n, con=None): return F(id, TArr(t, [n], carr=True, con=con))
def CStr(id, n): return F(id, TCstr(n))
def FStr(id, n, con=None): return F(id, TFstr(n, con))
def Rec(id, r, con=None): return F(id, TRec(r, con))
def ARec(id, r, n, con=None): return F(id, TArec(r, n, con))
def Str(id, size, con=None, ceil=None, order=0): return F(id, TStr(size, con, ceil), order=order)
def Vec(id, t, size, con=None, ceil=None, dims=(), order=0):
    return F(id, TVec(t, size, con, ceil, dims), order=order)
def VRec(id, r, size, con=None, ceil=None, order=0): return F(id, TVrec(r, size, con, ceil), order=order)
def Maybe(f, pred): return F(f.id, f.ty, pred=pred, magic=f.magic, order=f.order)
def Un(id, mode, alts, con=None): return F(id, TUnion(mode, alts, con))


class Schema:
    """name, records (ordered dict-like list of (name, [fields])), root = last."""

    def __init__(self, name, lists, le_only=False, files=False, weight=1.0):
        self.files = files
        self.name, self.lists, self.le_only = name, lists, le_only
        self.fns, self.sizes = [], []
        self.weight = weight

    # ---- shared emission state
    def esz(self, cpp):
        key = 'sizeof(%s)' % cpp
        if key not in self.sizes:
            self.sizes.append(key)
        return '#%d' % self.sizes.index(key)

    def con_ir(self, ty):
        c = ty.con
        if c is None:
            return ['con']
        sign = isinstance(ty, TInt) and INT[ty.t][1] == 1
        p = 's' if sign else ''
        if c.op in ('lt', 'gt', 'lte', 'gte'):
            o = {'lt': '<', 'gt': '>', 'lte': '<=', 'gte': '>='}[c.op]
            return ['con', ir_expr((p + o, '$0', c.vals[0]))]
        if c.op in ('eq', 'neq', 'any_of'):
            e = None
            for v in c.vals:
                one = self.eq_ir(ty, v)
                e = one if e is None else ['or', e, one]
            return ['con', ['not', e] if c.op == 'neq' else e]
        return ['con', ir_expr(c.vals[0])]

    def eq_ir(self, ty, v):
        if isinstance(ty, TInt):
            return ir_expr(('==', '$0', v))
        if isinstance(ty, TFstr):
            return ['beq', '$0'] + [ord(ch) for ch in v] + [0] * (ty.n + 1 - len(v))
        if isinstance(ty, TArr):
            return ['leq', '$0'] + [x & 0xffffffffffffffff for x in v]
        if isinstance(ty, TVec):
            return ['leq', '$0'] + [x & 0xffffffffffffffff for x in v]
        if isinstance(ty, TStr):
            return ['beq', '$0'] + [ord(ch) for ch in v]
        raise ValueError(ty)

    def lit(self, ty, v):
        if isinstance(ty, TInt):
            return '%s{%s}' % (ty.t, self.num(ty.t, v))
        if isinstance(ty, TFstr):
            return 's2s::fixed_string<%d>("%s")' % (ty.n, esc(v))
        if isinstance(ty, TArr):
            if len(ty.dims) == 1:
                return '%s{%s}' % (ty.cpp(), ', '.join(self.num(ty.t, x) for x in v))
        raise ValueError((ty, v))

    @staticmethod
    def num(t, v):
        if INT[t][1]:
            if v == -(1 << 63):
                return '(-9223372036854775807ll - 1)'
            return '%dll' % v if t == 'i64' else '%d' % v
        return '%dull' % v if t == 'u64' else '%du' % v

    def con_cpp(self, ty, arg=None):
        c = ty.con
        if c is None:
            return None
        if c.op == 'fun':
            n = 'con_%d' % len(self.fns)
            self.fns.append(
                'struct %s {\n  constexpr bool operator()(const %s& a0) const {\n'
                '    if !consteval { sim::on_callable(); }\n    return %s != 0;\n  }\n};'
                % (n, arg or ty.cpp(), cpp_expr(c.vals[0])))
            return n + '{}'
        return 's2s::%s{%s}' % (c.op, ', '.join(self.lit(ty, v) for v in c.vals))

    def fn_cpp(self, fn, ret):
        n = 'fn_%d' % len(self.fns)
        ret = fn.ret or ret
        body = 'if !consteval { sim::on_callable(); } return static_cast<%s>(%s);' % (
            ret, cpp_expr(fn.expr) if ret != 'bool' else '(%s != 0)' % cpp_expr(fn.expr))
        if fn.args is not None:
            args = ', '.join('[[maybe_unused]] %s a%d' % (a, i) for i, a in enumerate(fn.args))
            self.fns.append('constexpr %s %s(%s) { %s }' % (ret, n, args, body))
            return '&' + n
        if fn.style == 'lambda':
            args = ', '.join('[[maybe_unused]] const auto& a%d' % i for i in range(len(fn.ids)))
            self.fns.append('inline constexpr auto %s = [](%s) -> %s { %s };' % (n, args, ret, body))
            return n
        ts = ', '.join('typename T%d' % i for i in range(len(fn.ids)))
        args = ', '.join('[[maybe_unused]] const T%d& a%d' % (i, i) for i in range(len(fn.ids)))
        head = '  template <%s>\n' % ts if ts else ''
        self.fns.append(
            'struct %s {\n%s  constexpr %s operator()(%s) const {\n'
            '    if !consteval { sim::on_callable(); }\n    return static_cast<%s>(%s);\n  }\n};'
            % (n, head, ret, args, ret, cpp_expr(fn.expr) if ret != 'bool' else '(%s != 0)' % cpp_expr(fn.expr)))
        return n + '{}'

    def ids_cpp(self, ids):
        return ''.join(', "%s"' % i for i in ids)

    def opts(self, ty, order, arg=None):
        """The option pack, rotated by `order` so that every spelling occurs."""
        o = []
        if isinstance(ty, TInt) and ty.explicit:
            o.append('%d_B' % ty.w)
        if isinstance(ty, TVar):
            if isinstance(ty.size, Lf):
                o.append('s2s::len_from_field<"%s">' % ty.size.id)
            else:
                o.append('s2s::len_from_fields<%s%s>' % (
                    self.fn_cpp(ty.size.fn, 'std::size_t'), self.ids_cpp(ty.size.fn.ids)))
        c = self.con_cpp(ty, arg)
        if c:
            o.append(c)
        if isinstance(ty, TVar) and ty.ceil is not None:
            o.append('s2s::max_bytes<%dull>' % ty.ceil)
        if o:
            k = order % len(o)
            o = o[k:] + o[:k]
            if order >= 10:
                o.reverse()
        return ''.join(', ' + x for x in o)

    def tag_cpp(self, ty):
        if isinstance(ty, TInt):
            return 's2s::as_trivial<%s%s>' % (ty.t, self.opts(ty, 0))
        if isinstance(ty, TArr):
            assert len(ty.dims) == 1
            return 's2s::as_fixed_arr<%s, %d%s>' % (ty.t, ty.dims[0], self.opts(ty, 0))
        if isinstance(ty, TFstr):
            return 's2s::as_fixed_string<%d%s>' % (ty.n, self.opts(ty, 0))
        if isinstance(ty, TRec):
            return 's2s::as_struct<%s%s>' % (ty.r, self.opts(ty, 0))
        if isinstance(ty, TArec):
            return 's2s::as_arr_of_records<%s, %d%s>' % (ty.r, ty.n, self.opts(ty, 0))
        if isinstance(ty, TStr):
            return 's2s::as_string<%s>' % self.opts(ty, 0)[2:]
        if isinstance(ty, TVec):
            return 's2s::as_vec<%s%s>' % (ty.t, self.opts(ty, 1))
        if isinstance(ty, TVrec):
            return 's2s::as_vec_of_records<%s%s>' % (ty.r, self.opts(ty, 2))
        raise ValueError(ty)

    def field_cpp(self, f):
        ty, q = f.ty, '"%s"' % f.id
        if isinstance(ty, TUnion):
            m = ty.mode
            if m[0] == 'ladder':
                br = ',\n        '.join(
                    's2s::branch<s2s::predicate<%s%s>, %s>' % (
                        self.fn_cpp(sel, 'bool'), self.ids_cpp(sel.ids), self.tag_cpp(t))
                    for sel, t in ty.alts)
                ded = 's2s::type<s2s::type_if_else<\n        %s>>' % br
            else:
                if m[0] == 'field':
                    inp = 's2s::match_field<"%s">' % m[1]
                else:
                    inp = 's2s::compute<%s, %s%s>' % (
                        self.fn_cpp(m[2], m[1]), m[1], self.ids_cpp(m[2].ids))
                ca = ',\n        '.join('s2s::match_case<%s, %s>' % (
                    sel if -(1 << 31) <= sel < (1 << 31) else ('%dull' % sel if sel > 0 else '%dll' % sel),
                    self.tag_cpp(t)) for sel, t in ty.alts)
                ded = 's2s::type<%s, s2s::type_switch<\n        %s>>' % (inp, ca)
            c = self.con_cpp(ty)
            return 's2s::variance<%s, %s%s>' % (q, ded, ', ' + c if c else '')
        if f.magic == 'n':
            base = 's2s::magic_number<%s, %s, %d_B, %s>' % (q, ty.t, ty.w, self.lit(ty, ty.con.vals[0]))
        elif f.magic == 'b':
            base = 's2s::magic_byte_array<%s, %d, %s>' % (q, ty.dims[0], self.lit(ty, ty.con.vals[0]))
        elif f.magic == 's':
            base = 's2s::magic_string<%s, "%s">' % (q, esc(ty.con.vals[0]))
        elif isinstance(ty, TInt):
            base = 's2s::basic_field<%s, %s%s>' % (q, ty.t, self.opts(ty, f.order))
        elif isinstance(ty, TArr):
            inner = ty.t
            for d in reversed(ty.dims[1:]):
                inner = 'std::array<%s, %d>' % (inner, d)
            if ty.carr:
                arg = None
                if ty.con is not None:
                    self.fns.append('using carr_%s_%d = %s[%d];' % (f.id, len(self.fns), ty.t, ty.dims[0]))
                    arg = 'carr_%s_%d' % (f.id, len(self.fns) - 1)
                base = 's2s::c_arr_field<%s, %s, %d%s>' % (q, ty.t, ty.dims[0], self.opts(ty, f.order, arg))
            else:
                base = 's2s::fixed_array_field<%s, %s, %d%s>' % (q, inner, ty.dims[0], self.opts(ty, f.order))
        elif isinstance(ty, TCstr):
            base = 's2s::c_str_field<%s, %d>' % (q, ty.n)
        elif isinstance(ty, TFstr):
            base = 's2s::fixed_string_field<%s, %d%s>' % (q, ty.n, self.opts(ty, f.order))
        elif isinstance(ty, TRec):
            base = 's2s::struct_field<%s, %s%s>' % (q, ty.r, self.opts(ty, f.order))
        elif isinstance(ty, TArec):
            base = 's2s::array_of_records<%s, %s, %d%s>' % (q, ty.r, ty.n, self.opts(ty, f.order))
        elif isinstance(ty, TStr):
            base = 's2s::str_field<%s%s>' % (q, self.opts(ty, f.order))
        elif isinstance(ty, TVec):
            base = 's2s::vec_field<%s, %s%s>' % (q, ty.elem(), self.opts(ty, f.order))
        elif isinstance(ty, TVrec):
            base = 's2s::vector_of_records<%s, %s%s>' % (q, ty.r, self.opts(ty, f.order))
        else:
            raise ValueError(f)
        if f.pred is not None:
            if f.pred.ids or f.pred.expr != 1:
                return 's2s::maybe<%s, s2s::parse_if<%s%s>>' % (
                    base, self.fn_cpp(f.pred, 'bool'), self.ids_cpp(f.pred.ids))
            return 's2s::maybe<%s, s2s::always_present>' % base
        return base

    # ---- roles within one list
    @staticmethod
    def roles(fields):
        """id -> set of roles: 'len' (derived), 'clen' (conditional), 'disc', 'frozen'."""
        r = {f.id: set() for f in fields}
        for f in fields:
            if isinstance(f.ty, TVar) and isinstance(f.ty.size, Lf):
                r[f.ty.size.id].add('clen' if f.pred is not None else 'len')
            if isinstance(f.ty, TUnion):
                if f.ty.mode[0] == 'field':
                    r[f.ty.mode[1]].add('disc')
                for _, t in f.ty.alts:
                    if isinstance(t, TVar) and isinstance(t.size, Lf):
                        r[t.size.id].add('clen')
            if f.pred is None and f.ty.con is not None and f.ty.con.op == 'eq' and f.ty.fixed:
                if not (isinstance(f.ty, TArr) and f.ty.carr):
                    r[f.id].add('frozen')
        return r

    def ir(self):
        out = []
        for name, fields in self.lists:
            roles = self.roles(fields)
            fl = []
            for f in fields:
                a = ['f', f.id, f.ty.ir(self), self.con_ir(f.ty)]
                for role in ('len', 'clen', 'disc', 'frozen'):
                    if role in roles[f.id]:
                        a.append([role])
                if f.pred is not None:
                    a.append(['maybe', ir_expr(f.pred.expr)] + list(f.pred.ids))
                if f.hints:
                    a.append(['hints'] + [h & 0xffffffffffffffff for h in f.hints])
                fl.append(a)
            out.append(['list', name] + fl)
        return sx(out)

    def emit(self):
        ir = self.ir()
        types, bridges = [], []
        for name, fields in self.lists:
            body = []
            for f in fields:
                before = len(self.fns)
                body.append('  ' + self.field_cpp(f))
                types.extend(self.fns[before:])
            types.append('using %s = s2s::struct_field_list<\n%s\n>;' % (name, ',\n'.join(body)))
            body_text = '\n'.join(body)
            roles = self.roles(fields)
            vis = [f for f in fields if 'len' not in roles[f.id]]
            st, ld, lf1, sp = [], [], [], []
            for k, f in enumerate(vis):
                ro = roles[f.id] & {'disc', 'frozen'}
                st.append('    to(v.kids[%d], o["%s"_f]);' % (k, f.id))
                if not ro:
                    ld.append('    from(o["%s"_f], v.kids[%d]);' % (f.id, k))
                    lf1.append('      case %d: from(o["%s"_f], v); break;' % (k, f.id))
                if isinstance(f.ty, TUnion) and not f.ty.con and body_text.count('"%s"' % f.id) == 1:
                    sp.append('      case %d: return spoil(o["%s"_f]);' % (k, f.id))
            bridges.append(
                'template <> struct Lst<sch_%s::%s> {\n  using T = sch_%s::%s;\n'
                '  static void store([[maybe_unused]] const T& o, Val& v) {\n    v.k = Val::LIST; v.set_kids(%d);\n%s\n  }\n'
                '  static void load([[maybe_unused]] T& o, [[maybe_unused]] const Val& v) {\n%s\n  }\n'
                '  static void load1([[maybe_unused]] T& o, int i, [[maybe_unused]] const Val& v) {\n    switch(i) {\n%s\n      default: break;\n    }\n  }\n'
                '  static bool spoil1([[maybe_unused]] T& o, int i) {\n    switch(i) {\n%s\n      default: return false;\n    }\n  }\n};'
                % (self.name, name, self.name, name, len(vis), '\n'.join(st), '\n'.join(ld), '\n'.join(lf1), '\n'.join(sp)))
        root = self.lists[-1][0]
        sizes = ', '.join(s.replace('sizeof(', 'sizeof(sch_%s::' % self.name) for s in self.sizes) or '0'
        chunks = ['R"IR(%s)IR"' % ir[i:i + 8000] for i in range(0, len(ir), 8000)]
        return ('namespace { namespace sch_%s {\n%s\n} }\nnamespace sim {\n%s\n'
                'static const std::size_t sizes_%s[] = {%s};\n'
                'static const Reg reg_%s{make_ops<sch_%s::%s, %s, %s>("%s", %s, sizes_%s)};\n}\n'
                % (self.name, '\n'.join(types), '\n'.join(bridges), self.name, sizes,
                   self.name, self.name, root, 'true' if self.le_only else 'false', 'true' if self.files else 'false', self.name,
                   ' '.join(chunks), self.name))


def emit_tu(schemas):
    return ('// generated\n#include "bridge.hpp"\nusing namespace s2s_literals;\nusing namespace sim::ints;\n'
            + '\n'.join(s.emit() for s in schemas))
