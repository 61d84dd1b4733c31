"""Random schemas: what the fixed corpus does not combine, this does.

Deterministic in the seed. Every schema stays inside the documented language
(references point backwards, alternatives have distinct types, no narrow signed
types), so each one must compile and every property must hold for it.
"""
import random
from schema import *

UNS = ['u8', 'u16', 'u32', 'u64']
SGN = ['i8', 'i16', 'i32', 'i64']
W = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8}


class Gen:
    def __init__(self, rng, depth):
        self.r = rng
        self.lists = []          # finished records, innermost first
        self.depth = depth

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    # ---- leaf pieces
    def int_ty(self, con=True):
        t = self.pick(UNS * 2 + SGN)
        w = None
        if t[0] == 'u' and W[t] > 1 and self.chance(0.35):
            w = self.r.randrange(1, W[t] + 1)
        elif self.chance(0.2):
            w = W[t]
        return TInt(t, w, self.int_con(t, w) if con and self.chance(0.3) else None)

    def int_con(self, t, w=None):
        width = w or W[t]
        lo, hi = (0, (1 << 8 * width) - 1) if t[0] == 'u' else (-(1 << 8 * width - 1), (1 << 8 * width - 1) - 1)
        v = self.pick([lo + 1, hi - 1, max(lo, min(hi, self.r.randrange(-60, 200))), (lo + hi) // 2])
        v = max(lo, min(hi, v))
        k = self.r.randrange(8)
        if k == 0: return lt(v)
        if k == 1: return gt(v)
        if k == 2: return lte(v)
        if k == 3: return gte(v)
        if k == 4: return neq(v)
        if k == 5: return any_of(*{v, max(lo, min(hi, 3)), max(lo, min(hi, 9)), hi})
        if k == 6: return eq(v)
        return fun(('!=', ('%', '$0', self.pick([2, 3, 7])), 1))

    def box_con(self):
        return fun(self.pick([('!=', ('size', '$0'), self.r.randrange(4)), ('<=', ('size', '$0'), 6), ('==', ('%', ('sum', '$0'), 2), 0)]))

    def arr_ty(self, tag=False):
        t = self.pick(UNS + SGN[:2])
        dims = [self.r.randrange(1, 5)] if tag or self.chance(0.75) else [self.r.randrange(1, 4), self.r.randrange(1, 4)]
        con = fun(('<', ('at', '$0', self.r.randrange(dims[0])), 100)) if len(dims) == 1 and t[0] == 'u' and self.chance(0.2) else None
        return TArr(t, dims, con=con)

    def fstr_ty(self):
        n = self.r.randrange(1, 6)
        con = None
        if self.chance(0.2):
            con = self.pick([neq('x' * n), any_of('a' * n, 'b' * n)])
        return TFstr(n, con)

    def ceil(self):
        return self.pick([None, None, None, 8, 30, 64, 200, 4096])

    # ---- references to earlier fields
    def expr(self, fields, small):
        """An expression over earlier fields, and the ids it names."""
        nums = [f for f in fields if isinstance(f.ty, TInt) and f.pred is None]
        ids, terms = [], []
        for _ in range(1 + self.chance(0.4)):
            c = self.r.randrange(10)
            boxes = [f for f in fields if isinstance(f.ty, (TVec, TStr)) and f.pred is None]
            opts = [f for f in fields if f.pred is not None and isinstance(f.ty, TInt)]
            arrs = [f for f in fields if isinstance(f.ty, TArr) and len(f.ty.dims) == 1 and not f.ty.carr and f.ty.t[0] == 'u' and f.pred is None]
            if c < 6 and nums:
                f, e = self.pick(nums), '$%d'
            elif c == 6 and boxes:
                f, e = self.pick(boxes), ('size', '$%d')
            elif c == 7 and opts:
                f, e = self.pick(opts), ('has', '$%d')
            elif c == 8 and arrs:
                f, e = self.pick(arrs), ('at', '$%d', 0)
            elif nums:
                f, e = self.pick(nums), '$%d'
            else:
                return None
            if f.id in ids:
                k = ids.index(f.id)
            else:
                k = len(ids)
                ids.append(f.id)
            terms.append(tuple(x % k if isinstance(x, str) and '%' in x else x for x in e) if isinstance(e, tuple) else e % k)
        e = terms[0] if len(terms) == 1 else (self.pick(['+', '^', '|', '*']), terms[0], terms[1])
        if small:
            e = self.pick([('&', e, 3), ('&', e, 7), ('%', e, 5), ('+', ('&', e, 3), self.r.randrange(3))])
        return e, ids

    def fn(self, fields):
        """A condition over earlier fields."""
        x = self.expr(fields, False)
        if x is None:
            return None
        e, ids = x
        e = self.pick([('&', e, self.pick([1, 2, 4, 3])), ('==', ('%', e, 3), self.r.randrange(3)), ('>', ('&', e, 255), self.r.randrange(90)),
                       ('not', ('&', e, 1)), ('<', ('%', e, 10), 6)])
        return Fn(e, *ids)

    def size(self, fields, pending):
        """A size axis; may add a length field first."""
        k = self.r.randrange(10)
        if k < 3:
            x = self.expr(fields, True)
            if x:
                return lfs(x[0], *x[1])
        lens = [f for f in fields if isinstance(f.ty, TInt) and f.pred is None and getattr(f, 'as_len', False)]
        if lens and self.chance(0.3):
            return lf(self.pick(lens).id)
        t = self.pick(UNS * 3 + SGN)
        w = self.r.randrange(1, W[t] + 1) if t[0] == 'u' and self.chance(0.3) else None
        con = self.pick([lte(5), lt(9), fun(('!=', '$0', 2)), any_of(0, 1, 2, 4)]) if self.chance(0.15) else None
        f = I(self.name(), t, w, con=con)
        f.as_len = True
        pending.append(f)
        return lf(f.id)

    def rec(self):
        return self.pick(self.lists)[0] if self.lists else None

    def var_ty(self, fields, pending, tag=False):
        size = self.size(fields, pending)
        con = self.box_con() if self.chance(0.15) else None
        r = self.rec()
        k = self.r.randrange(4 if r else 3)
        ceil = self.ceil()
        if k == 0:
            return TStr(size, con, ceil)
        if k < 3:
            dims = [] if tag or self.chance(0.8) else [self.r.randrange(1, 4)]
            if dims:
                con = None
            return TVec(self.pick(UNS + SGN[:2]), size, con, ceil, dims)
        return TVrec(r, size, None if con is None else fun(('!=', ('size', '$0'), 2)), None if ceil is None else max(ceil, 200))

    def any_ty(self, fields, pending, tag=False):
        k = self.r.randrange(10)
        r = self.rec()
        if k < 3:
            return self.int_ty()
        if k == 3:
            return self.arr_ty(tag)
        if k == 4:
            return self.fstr_ty()
        if k == 5 and r:
            return TRec(r)
        if k == 6 and r:
            return TArec(r, self.r.randrange(1, 4))
        return self.var_ty(fields, pending, tag)

    def union(self, fields, pending):
        n = self.r.randrange(2, 6)
        alts, seen = [], set()
        extra = []
        for _ in range(n * 3):
            if len(alts) == n:
                break
            before = len(extra)
            t = self.any_ty(fields + pending + extra, extra, tag=True)
            if t.cpp() in seen or (isinstance(t, TArr) and t.carr):
                del extra[before:]
                continue
            seen.add(t.cpp())
            alts.append(t)
        pending.extend(extra)
        mode = self.r.randrange(4)
        known = fields + pending
        if mode >= 2:
            sels = []
            for _ in alts:
                f = self.fn(known)
                if f is None:
                    break
                sels.append(f)
            if len(sels) == len(alts):
                if self.chance(0.5):
                    sels[-1] = Fn(('or', sels[-1].expr, ('>=', '$0', 0)), *sels[-1].ids) if isinstance(sels[-1].expr, tuple) and \
                        any(f.id == sels[-1].ids[0] and isinstance(f.ty, TInt) and f.pred is None for f in known) else sels[-1]
                return TUnion(('ladder',), list(zip(sels, alts)))
        if mode == 1:
            x = self.expr(known, True)
            if x:
                vals = self.r.sample(range(9), len(alts))
                return TUnion(('compute', self.pick(['u8', 'u16', 'u32', 'i32']), Fn(x[0], *x[1])), list(zip(vals, alts)))
        t = self.pick(['u8', 'u8', 'u16', 'u32', 'i8', 'i16'])
        vals = self.r.sample(list(range(0, 12)) + ([200, 255] if t[0] == 'u' else [-1, -2, 100]), len(alts))
        w = 1 if t in ('u16', 'u32') and self.chance(0.3) else None
        discs = [f for f in fields if getattr(f, 'disc_vals', None) and len(f.disc_vals) >= len(alts)]
        if discs and self.chance(0.3):
            d = self.pick(discs)
            return TUnion(('field', d.id), list(zip(self.r.sample(d.disc_vals, len(alts)), alts)))
        d = I(self.name(), t, w)
        d.disc_vals = vals
        pending.append(d)
        return TUnion(('field', d.id), list(zip(vals, alts)))

    def name(self):
        self.n += 1
        return self.pick(['f', 'g', 'x', 'len', 'k']) + str(self.n)

    def make_list(self, nm, count):
        self.n = 0
        fields = []
        while len(fields) < count:
            pending = []
            k = self.r.randrange(20)
            id = self.name()
            if k < 4:
                f = F(id, self.int_ty(), order=self.r.randrange(3))
                if self.chance(0.5):
                    f.hints = [0, 1, 2, 3]
            elif k == 4:
                f = self.pick([MagS(id, self.pick(['A', 'MAG', 'hi'])), MagB(id, [self.r.randrange(256) for _ in range(self.r.randrange(1, 5))]),
                               MagN(id, 'u32', 0x010203, 3), MagN(id, 'u16', 0x1234), MagN(id, 'i16', -3)])
            elif k == 5:
                f = F(id, self.arr_ty())
            elif k == 6:
                f = self.pick([F(id, self.fstr_ty()), CStr(id, 4), CArr(id, 'u16', 3), CArr(id, 'u32', 2)])
            elif k < 10:
                f = F(id, self.var_ty(fields, pending), order=self.r.randrange(3))
            elif k < 12 and self.lists:
                r = self.rec()
                f = self.pick([Rec(id, r), ARec(id, r, self.r.randrange(1, 4)), VRec(id, r, self.size(fields, pending))])
            elif k < 16:
                f = F(id, self.any_ty(fields, pending))
                f.ty.con = None
                p = self.fn(fields + pending)
                if p is None:
                    continue
                f.pred = p
            else:
                f = F(id, self.union(fields, pending))
            # a length field a few fields ahead of its container, sometimes
            for p in pending:
                at = self.r.randrange(len(fields) + 1) if self.chance(0.3) else len(fields)
                fields.insert(at, p)
            fields.append(f)
        return (nm, fields)


def one(seed):
    rng = random.Random(seed)
    g = Gen(rng, 0)
    for d in range(rng.randrange(0, 4)):
        g.lists.append(g.make_list('R%d' % d, rng.randrange(1, 5)))
    root = g.make_list('L', rng.randrange(3, 9))
    used, out = set(), []

    def refs(fields):
        for f in fields:
            for t in [f.ty] + ([a for _, a in f.ty.alts] if isinstance(f.ty, TUnion) else []):
                if hasattr(t, 'r') and t.r not in used:
                    used.add(t.r)
                    refs(dict(g.lists)[t.r])
    refs(root[1])
    return Schema('rnd_%d' % seed, [l for l in g.lists if l[0] in used] + [root])


def make(seed, n):
    return [one(seed * 1000 + i) for i in range(n)]
