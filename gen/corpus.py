"""The fixed corpus. Each entry exists for a construct, or for a combination of
constructs whose interplay s2s has code for. Ids are reused between nesting
levels on purpose: a lookup that leaks across levels then finds something."""
from schema import *

P = []


# Also compiled against std::ifstream, std::ofstream and std::fstream themselves.
FILES = set('''scal_u narrow arrs vecs strs shared_len computed vrec nest_len maybe_all un_len frozen packet
               tail_rec ceil_un un_ladder'''.split())


def S(name, *lists, **kw):
    P.append(Schema(name, list(lists), files=name in FILES, **kw))


# ---- scalars -------------------------------------------------------------
S('scal_u', ('L', [I('a', 'u8'), I('b', 'u16'), I('c', 'u32'), I('d', 'u64'), I('e', 'u16', 2), I('z', 'u8', 1)]))
S('scal_s', ('L', [I('a', 'i8'), I('b', 'i16'), I('c', 'i32'), I('d', 'i64'), I('e', 'i32', 4)]))
S('narrow', ('L', [I('a', 'u16', 1), I('b', 'u32', 1), I('c', 'u32', 2), I('d', 'u32', 3), I('e', 'u64', 1),
                   I('f', 'u64', 3), I('g', 'u64', 5), I('h', 'u64', 6), I('i', 'u64', 7), I('j', 'u64', 4)]))
S('con_u', ('L', [I('a', 'u8', con=lt(200)), I('b', 'u16', 2, con=gt(5)), I('c', 'u32', con=lte(70000)),
                  I('d', 'u64', con=gte(3)), I('e', 'u16', con=neq(0x1234), order=1),
                  I('f', 'u8', 1, con=any_of(1, 2, 7, 255)), I('g', 'u32', 3, con=lt(0x10000), order=1)]))
S('con_s', ('L', [I('a', 'i8', con=lt(-3)), I('b', 'i16', con=gt(-300)), I('c', 'i32', con=lte(-1)),
                  I('d', 'i64', con=gte(-5)), I('e', 'i16', con=neq(-1)), I('f', 'i32', con=any_of(-7, 0, 9))]))
S('con_fun', ('L', [I('a', 'u8', con=fun(('==', ('%', '$0', 3), 0))), I('b', 'u32', con=fun(('!=', ('&', '$0', 0x101), 1))),
                    Arr('c', 'u8', [3], con=fun(('<', ('at', '$0', 0), 128))), I('n', 'u8'),
                    Vec('d', 'u16', lf('n'), con=fun(('<=', ('size', '$0'), 5))),
                    I('m', 'u8'), Str('e', lf('m'), con=fun(('!=', ('at', '$0', 0), 33)), order=1),
                    FStr('g', 3, con=fun(('!=', ('at', '$0', 1), 0)))]))

# ---- frozen --------------------------------------------------------------
S('frozen', ('L', [MagS('m', 'S2S'), MagN('v', 'u16', 0x0102), MagB('k', [0xde, 0xad, 0xbe, 0xef]), I('x', 'u8'),
                   I('w', 'u32', con=eq(0x11223344)), I('nw', 'u32', 2, con=eq(0x0506), order=1),
                   Arr('fa', 'u16', [2], con=eq([0x0102, 0xfffe])), FStr('fs', 2, con=eq('hi')),
                   MagN('nn', 'u64', 0xa1b2c3, 3), I('neg', 'i16', con=eq(-2)), I('y', 'u16')]))
S('frozen_nest',
  ('H', [MagB('sig', [0x42, 0x4d]), I('ver', 'u8', con=eq(3)), I('x', 'u16')]),
  ('L', [MagS('sig', 'PKT'), Rec('h', 'H'), ARec('hs', 'H', 2), I('n', 'u8'), VRec('hv', 'H', lf('n')), I('t', 'u8'),
         Un('u', ('field', 't'), [(1, TRec('H')), (2, TInt('u8', con=eq(9)))])]))

# ---- fixed buffers -------------------------------------------------------
S('arrs', ('L', [Arr('a', 'u8', [5]), Arr('b', 'u16', [3]), Arr('c', 'u32', [2]), Arr('d', 'u64', [2]),
                 Arr('e', 'i16', [2]), Arr('g', 'u16', [2, 3]), Arr('h', 'u32', [2, 2, 2]), Arr('one', 'u16', [1])]))
S('carrs', ('L', [CArr('a', 'u8', 4), CArr('b', 'u16', 3), CArr('c', 'u64', 2), CStr('s', 6), FStr('f', 4), FStr('g', 1),
                  CArr('d', 'u32', 2, con=fun(('<', ('at', '$0', 1), 1000)))]))
S('arr_con', ('L', [Arr('a', 'u8', [2], con=any_of([1, 2], [3, 4])), Arr('b', 'u16', [2], con=neq([5, 6])),
                    FStr('s', 3, con=any_of('abc', 'xyz')), FStr('t', 2, con=neq('no')), I('z', 'u8')]))
S('floats', ('L', [Arr('a', 'f32', [3]), I('n', 'u8'), Vec('v', 'f64', lf('n')), I('t', 'u8'),
                   Un('u', ('field', 't'), [(0, TInt('f32')), (1, TInt('f64')), (2, TArr('f64', [2]))])]), le_only=True)

# ---- variable-sized ------------------------------------------------------
S('vecs', ('L', [I('n', 'u8'), Vec('a', 'u8', lf('n')), I('m', 'u16'), Vec('b', 'u16', lf('m')), I('k', 'u32'),
                 Vec('c', 'u32', lf('k')), I('j', 'u64'), Vec('d', 'u64', lf('j')), I('s', 'u8'), Vec('e', 'i16', lf('s'))]))
S('strs', ('L', [I('n', 'u8'), Str('a', lf('n')), I('m', 'u16'), Str('b', lf('m')), I('z', 'u8'), I('k', 'u32'), Str('c', lf('k'))]))
S('vec_arr', ('L', [I('n', 'u8'), Vec('a', 'u16', lf('n'), dims=[2]), I('m', 'u8'), Vec('b', 'u32', lf('m'), dims=[2, 2]),
                    I('k', 'u8'), Vec('c', 'u8', lf('k'), dims=[3])]))
S('len_narrow', ('L', [I('n', 'u32', 1), Vec('a', 'u8', lf('n')), I('m', 'u64', 3), Str('b', lf('m')), I('k', 'u16', 1),
                       Vec('c', 'u32', lf('k')), I('j', 'u32', 2, con=lte(9)), Vec('d', 'u8', lf('j'))]))
S('len_signed', ('L', [I('n', 'i8'), Vec('a', 'u8', lf('n')), I('m', 'i32'), Str('b', lf('m')), I('k', 'i64'),
                       Vec('c', 'u16', lf('k')), I('j', 'i16', con=lt(20)), Vec('d', 'u32', lf('j'))]))
S('len_far', ('L', [I('n', 'u8'), I('x', 'u16'), I('m', 'u8'), FStr('f', 2), Vec('a', 'u8', lf('m')), I('y', 'u32'),
                    Str('b', lf('n')), I('z', 'u8')]))
S('shared_len',
  ('R', [I('x', 'u8'), I('y', 'u16')]),
  ('L', [I('n', 'u8'), Vec('a', 'u16', lf('n')), Str('b', lf('n')), VRec('c', 'R', lf('n')), I('m', 'u16', 1),
         Vec('d', 'u8', lf('m')), Vec('e', 'u32', lf('m'))]))
S('len_con', ('L', [I('n', 'u8', con=lte(6)), Vec('a', 'u8', lf('n')), I('m', 'u16', con=any_of(0, 2, 4)),
                    Vec('b', 'u16', lf('m')), I('k', 'u8', con=eq(3)), Str('c', lf('k')), I('j', 'u8', con=fun(('!=', '$0', 2))),
                    Str('d', lf('j'))]))
S('computed', ('L', [I('w', 'u8', hints=[0, 1, 2, 3, 5]), I('h', 'u16', hints=[0, 1, 2, 4]),
                     Vec('px', 'u16', lfs(('*', '$0', '$1'), 'w', 'h')),
                     Str('s', lfs(('+', '$0', 1), 'w')), I('t', 'u8', hints=[4, 5, 9]),
                     Vec('r', 'u8', lfs(('-', '$0', 4), 't')), Vec('q', 'u32', lfs(('/', '$0', 2), 't'))]))
S('computed_rec',
  ('R', [I('n', 'u8'), Vec('v', 'u8', lf('n'))]),
  ('L', [I('a', 'u8', hints=[0, 1, 2]), I('b', 'u8', hints=[0, 1, 2]), VRec('rs', 'R', lfs(('+', '$0', '$1'), 'a', 'b')),
         Arr('dims', 'u8', [2]), Vec('g', 'u8', lfs(('&', ('+', ('at', '$0', 0), ('at', '$0', 1)), 7), 'dims')),
         I('i', 'i16', hints=[0, 1, 3, -1]), Vec('h', 'u16', lfs('$0', 'i'))]))
S('computed_from_len', ('L', [I('n', 'u8'), Vec('a', 'u8', lf('n')), Vec('b', 'u16', lfs(('+', '$0', 1), 'n')),
                              Str('c', lfs(('*', '$0', 2), 'n')), MagN('two', 'u8', 2), Vec('d', 'u8', lfs('$0', 'two')),
                              Vec('e', 'u32', lfs(('size', '$0'), 'a'))]))
S('con_box', ('L', [I('n', 'u8'), Vec('a', 'u8', lf('n'), con=fun(('==', ('%', ('sum', '$0'), 2), 0))), I('m', 'u8'),
                    Str('b', lf('m'), con=fun(('!=', ('size', '$0'), 3))), I('k', 'u8'),
                    Vec('c', 'u16', lf('k'), con=fun(('or', ('==', ('size', '$0'), 0), ('<', ('at', '$0', 0), 0x8000))), ceil=64, order=2)]))

# ---- allocation ceilings -------------------------------------------------
S('ceil', ('R', [I('x', 'u8'), I('y', 'u64')]),
  ('L', [I('n', 'u32'), Vec('a', 'u32', lf('n'), ceil=40), I('m', 'u32'), Str('b', lf('m'), ceil=16, order=1), I('k', 'u64'),
         VRec('c', 'R', lf('k'), ceil=200, order=1), I('j', 'u16'), Vec('d', 'u8', lf('j'), ceil=1), I('i', 'u64'),
         Vec('e', 'u64', lf('i'), ceil=31)]))
S('ceil_def', ('L', [I('n', 'u32'), Vec('a', 'u8', lf('n')), I('m', 'u64'), Vec('b', 'u64', lf('m')), I('k', 'u32'), Str('c', lf('k'))]))
S('ceil_defrec', ('R', [I('x', 'u8'), I('n', 'u16'), Vec('v', 'u16', lf('n'))]),
  ('L', [I('k', 'u64'), VRec('c', 'R', lf('k')), I('j', 'u32'), Vec('d', 'u32', lf('j'), dims=[2])]))
S('ceil_comp', ('L', [I('w', 'u32', hints=[0, 1, 2, 3]), I('h', 'u32', hints=[0, 1, 2, 4]),
                      Vec('px', 'u32', lfs(('*', '$0', '$1'), 'w', 'h'), ceil=48), I('t', 'u8', hints=[2, 3, 4, 1]),
                      Str('s', lfs(('-', '$0', 2), 't')), I('g', 'u64', hints=[0, 1, 3]),
                      Vec('z', 'u16', lfs(('+', '$0', 1), 'g'))]))
S('ceil_un', ('R', [I('x', 'u32')]),
  ('L', [I('t', 'u8'), I('n', 'u32'),
         Un('u', ('field', 't'), [(0, TVec('u16', lf('n'), ceil=20)), (1, TStr(lf('n'), ceil=9)), (2, TVrec('R', lf('n'), ceil=32)),
                                  (3, TVec('u64', lf('n'))), (4, TInt('u8'))])]))
S('ceil_maybe', ('R', [I('x', 'u32'), I('y', 'u8')]),
  ('L', [I('f', 'u8', hints=[0, 1, 2, 3, 7]), I('n', 'u32'), Maybe(Vec('a', 'u16', lf('n'), ceil=12), Fn(('&', '$0', 1), 'f')),
         I('m', 'u64'), Maybe(VRec('b', 'R', lf('m'), ceil=64), Fn(('&', '$0', 2), 'f')), I('k', 'u32'),
         Maybe(Str('c', lf('k')), Fn(('&', '$0', 4), 'f'))]))
S('ceil_nest', ('I0', [I('n', 'u16'), Vec('v', 'u8', lf('n'), ceil=6)]), ('R', [I('n', 'u8'), VRec('in', 'I0', lf('n'), ceil=96), I('q', 'u8')]),
  ('L', [I('n', 'u32'), VRec('rs', 'R', lf('n'), ceil=300), Rec('one', 'R'), ARec('two', 'I0', 2)]))
S('big', ('L', [I('tag', 'u8'), I('n', 'u32'), Vec('a', 'u8', lf('n')), I('m', 'u32'), Vec('b', 'u16', lf('m')), I('end', 'u16')]))

# ---- records -------------------------------------------------------------
S('nest', ('A', [I('x', 'u8'), I('y', 'u16', con=lt(50000))]), ('B', [I('x', 'u16'), Rec('a', 'A'), I('z', 'u8')]),
  ('C', [Rec('a', 'A'), Rec('b', 'B'), I('x', 'u32')]), ('L', [I('x', 'u8'), Rec('c', 'C'), Rec('b', 'B'), I('last', 'u16')]))
S('nest_len', ('A', [I('n', 'u8'), Vec('v', 'u16', lf('n'))]), ('B', [I('n', 'u16'), Str('s', lf('n')), Rec('a', 'A')]),
  ('L', [I('n', 'u8'), Rec('a', 'A'), Vec('v', 'u8', lf('n')), Rec('b', 'B'), I('t', 'u8')]))
S('arec', ('A', [I('x', 'u8'), Arr('y', 'u16', [2])]), ('B', [I('n', 'u8'), Vec('v', 'u8', lf('n'))]),
  ('L', [ARec('a', 'A', 3), ARec('b', 'B', 2), ARec('o', 'A', 1), I('z', 'u8')]))
S('vrec', ('A', [I('x', 'u8', con=neq(99)), I('y', 'u32')]), ('B', [I('n', 'u8'), Str('s', lf('n')), Rec('a', 'A')]),
  ('L', [I('n', 'u8'), VRec('a', 'A', lf('n')), I('m', 'u16'), VRec('b', 'B', lf('m')), I('z', 'u8')]))
S('vrec_deep', ('A', [I('k', 'u8'), Vec('w', 'u16', lf('k'))]), ('B', [I('n', 'u8'), VRec('as', 'A', lf('n')), I('q', 'u8')]),
  ('L', [I('n', 'u8'), VRec('bs', 'B', lf('n')), I('z', 'u32')]))
S('rec_con', ('A', [I('x', 'u8'), I('y', 'u8')]),
  ('L', [Rec('a', 'A', con=fun(('<=', ('mem', '$0', 'x'), ('mem', '$0', 'y')))),
         ARec('b', 'A', 2, con=fun(('<', ('emem', '$0', 'x'), 300))), I('n', 'u8'),
         VRec('c', 'A', lf('n'), con=fun(('!=', ('size', '$0'), 2))), I('z', 'u8')]))

# ---- optionals -----------------------------------------------------------
S('maybe_all', ('A', [I('x', 'u8'), I('y', 'u16')]), ('B', [I('n', 'u8'), Vec('v', 'u8', lf('n'))]),
  ('L', [I('f', 'u16', hints=[0, 1, 2, 4, 8, 16, 32, 64, 0x7f, 0x55]), I('n', 'u8'), I('m', 'u8'), I('k', 'u8'),
         Maybe(I('a', 'u32'), Fn(('&', '$0', 1), 'f')), Maybe(Arr('b', 'u16', [2]), Fn(('&', '$0', 2), 'f')),
         Maybe(FStr('c', 3), Fn(('&', '$0', 4), 'f')), Maybe(Str('d', lf('n')), Fn(('&', '$0', 8), 'f')),
         Maybe(Vec('e', 'u16', lf('m')), Fn(('&', '$0', 16), 'f')), Maybe(Rec('g', 'A'), Fn(('&', '$0', 32), 'f')),
         Maybe(VRec('h', 'B', lf('k')), Fn(('&', '$0', 64), 'f')), I('z', 'u8')]))
S('maybe_rec', ('A', [MagN('m', 'u8', 7), I('x', 'u16')]),
  ('L', [I('f', 'u8', hints=[0, 1, 2, 3]), Maybe(ARec('a', 'A', 2), Fn(('&', '$0', 1), 'f')), Maybe(Rec('b', 'A'), Fn(('&', '$0', 2), 'f')),
         Maybe(I('c', 'u32', 3), Fn(1)), Maybe(I('d', 'i16'), Fn(('==', '$0', 3), 'f'))]))
S('maybe_multi', ('L', [I('a', 'u8', hints=[0, 1, 5, 9]), I('b', 'u8', hints=[0, 1, 5, 9]), I('c', 'i8', hints=[0, -1, 3]),
                        Maybe(I('p', 'u16'), Fn(('<', '$0', '$1'), 'a', 'b')), Maybe(I('q', 'u8'), Fn(('has', '$0'), 'p')),
                        Maybe(Arr('r', 'u8', [2]), Fn(('and', ('has', '$0'), ('>', ('val', '$0'), 100)), 'p')),
                        Maybe(I('s', 'u32'), Fn(('s<', ('+', '$0', '$1'), 4), 'c', 'a')), I('z', 'u8')]))
S('maybe_len', ('L', [I('f', 'u8', hints=[0, 1]), I('n', 'u16', 1), Maybe(Vec('a', 'u8', lf('n')), Fn('$0', 'f')),
                      I('m', 'u8'), Str('b', lf('m')), Maybe(Str('c', lf('m')), Fn(('not', '$0'), 'f'))]))
S('maybe_comp', ('A', [I('x', 'u16')]),
  ('L', [I('f', 'u8', hints=[0, 1, 2, 3]), I('w', 'u8', hints=[0, 1, 2, 3]),
         Maybe(Vec('a', 'u16', lfs(('+', '$0', '$1'), 'w', 'f')), Fn(('&', '$0', 1), 'f')),
         Maybe(Str('b', lfs(('*', '$0', 2), 'w')), Fn(('>', '$0', 1), 'w')),
         Maybe(VRec('c', 'A', lfs('$0', 'w')), Fn(('&', '$0', 2), 'f'))]))
S('pred_derived', ('L', [I('n', 'u8'), Vec('a', 'u8', lf('n')), Maybe(I('big', 'u16'), Fn(('>', '$0', 2), 'n')),
                         I('t', 'u8'), Un('u', ('field', 't'), [(1, TInt('u8')), (2, TInt('u32')), (5, TArr('u8', [2]))]),
                         Maybe(I('ex', 'u8'), Fn(('==', '$0', 2), 't')), MagN('v', 'u8', 4),
                         Maybe(I('v4', 'u16'), Fn(('>=', '$0', 4), 'v')), Maybe(I('sz', 'u8'), Fn(('>', ('size', '$0'), 1), 'a'))]))

# ---- unions --------------------------------------------------------------
S('un_switch', ('L', [I('t', 'u8'), Un('u', ('field', 't'), [(1, TInt('u32')), (2, TInt('i32')), (7, TInt('u16')), (255, TInt('u8'))]),
                      I('z', 'u8')]))
S('un_neg', ('L', [I('t', 'i8'), Un('u', ('field', 't'), [(-1, TInt('u32', 4)), (0, TInt('u16')), (5, TInt('i64')), (-128, TInt('u8'))]),
                   I('s', 'i32'), Un('w', ('field', 's'), [(-70000, TInt('u8')), (70000, TInt('u16'))])]))
S('un_wide', ('L', [I('t', 'u32', 3), Un('u', ('field', 't'), [(0x010203, TInt('u16')), (0, TInt('u8')), (0xffffff, TInt('u64', 5))]),
                    I('s', 'u16', con=any_of(10, 20)),
                    Un('v', ('field', 's'), [(10, TInt('u8')), (20, TInt('u32', 2)), (30, TInt('u16'))])]))
S('un_tags', ('A', [I('x', 'u8'), I('y', 'u16', con=lt(60000))]),
  ('L', [I('t', 'u8'), I('n', 'u8'),
         Un('u', ('field', 't'), [(0, TInt('u32')), (1, TRec('A')), (2, TArr('u16', [3])), (3, TArec('A', 2)), (4, TVec('u16', lf('n'))),
                                  (5, TVrec('A', lf('n'))), (6, TStr(lf('n'))), (7, TFstr(3))]), I('z', 'u8')]), weight=2)
S('un_con', ('A', [I('x', 'u8'), I('y', 'u8')]),
  ('L', [I('t', 'u8'), I('n', 'u8'),
         Un('u', ('field', 't'), [(0, TInt('u32', 4, con=lte(99))), (1, TRec('A', con=fun(('<', ('mem', '$0', 'x'), ('mem', '$0', 'y'))))),
                                  (2, TArr('u8', [2], con=fun(('!=', ('at', '$0', 0), 0)))), (3, TVec('u8', lf('n'), con=fun(('==', ('%', ('size', '$0'), 2), 0)))),
                                  (4, TStr(lf('n'), con=fun(('!=', ('size', '$0'), 1)))), (5, TFstr(2, con=neq('no'))),
                                  (6, TInt('u8', con=eq(42)))])]), weight=1.6)
S('un_vcon', ('L', [I('t', 'u8'), I('x', 'u8'),
                    Un('u', ('field', 't'), [(1, TInt('u32')), (2, TInt('u16')), (3, TInt('u8', con=lt(100)))], con=fun(('!=', ('idx', '$0'), 1)))
                    ]))
S('un_ladder', ('A', [I('x', 'u8'), I('y', 'u16')]),
  ('L', [I('len', 'u16', hints=[0, 3, 4, 5, 20, 300]), I('fl', 'u8', hints=[0, 1, 2, 3]),
         Un('u', ('ladder',), [(Fn(('<=', '$0', 4), 'len'), TInt('u32')), (Fn(('and', ('<', '$0', 256), ('&', '$1', 1)), 'len', 'fl'), TArr('u8', [3])),
                               (Fn(('==', '$0', 2), 'fl'), TRec('A')), (Fn(('>', '$0', 100), 'len'), TInt('u8', con=gt(3)))]), I('z', 'u8')]))
S('un_compute', ('L', [I('a', 'u8', hints=[0, 1, 2, 3, 9]), I('b', 'u8', hints=[0, 1, 2]), I('n', 'u8'),
                       Un('u', ('compute', 'u8', Fn(('+', '$0', '$1'), 'a', 'b')), [(0, TInt('u16')), (2, TInt('u64')), (3, TVec('u8', lf('n'))), (4, TStr(lf('n')))]),
                       Un('w', ('compute', 'i32', Fn(('-', '$0', '$1'), 'a', 'b')), [(-1, TInt('u8')), (0, TInt('u16')), (1, TInt('u32')), (9, TInt('i8')),
                                                                                    (2, TInt('i16')), (-2, TInt('i32')), (3, TInt('i64')), (8, TInt('u64'))])]), weight=1.6)
S('un_share', ('L', [I('t', 'u8'), Un('u', ('field', 't'), [(1, TInt('u8')), (2, TInt('u16'))]),
                     Un('v', ('field', 't'), [(1, TInt('u32')), (2, TInt('u8')), (3, TInt('u16'))]), I('z', 'u16')]))
S('un_len', ('A', [I('x', 'u16')]),
  ('L', [I('t', 'u8'), I('n', 'u16', 1), I('m', 'u8'), Vec('pre', 'u8', lf('m')),
         Un('u', ('field', 't'), [(1, TVec('u32', lf('n'))), (2, TStr(lf('m'))), (3, TVrec('A', lf('n'))), (4, TVec('u8', lfs(('+', '$0', 1), 'm')))]),
         I('z', 'u8')]))
S('un_ladlen', ('A', [I('x', 'u8')]),
  ('L', [I('k', 'u8', hints=[0, 1, 2, 3]), I('n', 'u8', hints=[0, 1, 2, 3, 4]),
         Un('u', ('ladder',), [(Fn(('==', '$0', 0), 'k'), TVec('u16', lf('n'))), (Fn(('==', '$0', 1), 'k'), TStr(lf('n'), ceil=30)),
                               (Fn(('==', '$0', 2), 'k'), TVrec('A', lf('n')))])]))
S('un_disclen', ('L', [I('t', 'u8'), Vec('a', 'u16', lf('t')), Un('u', ('field', 't'), [(0, TInt('u8')), (2, TInt('u32')), (3, TInt('u16'))])]))
S('un_derived', ('L', [I('n', 'u8'), Vec('a', 'u8', lf('n')), Un('u', ('ladder',), [(Fn(('<', '$0', 2), 'n'), TInt('u8')), (Fn(('>=', '$0', 2), 'n'), TInt('u32'))]),
                       I('t', 'u8'), Un('v', ('field', 't'), [(1, TInt('u16')), (2, TInt('u8'))]),
                       Un('w', ('compute', 'u8', Fn(('+', '$0', '$1'), 't', 'n')), [(1, TInt('u8')), (2, TInt('u16')), (3, TInt('u32')), (4, TInt('u64')), (5, TInt('i8'))])]))
S('tlv', ('T', [I('tag', 'u8'), I('len', 'u8'), Un('val', ('field', 'tag'), [(1, TInt('u8')), (2, TInt('u32')), (3, TStr(lf('len'))), (4, TVec('u16', lf('len')))])]),
  ('L', [MagB('sig', [0x54, 0x4c]), I('count', 'u16'), VRec('items', 'T', lf('count')), I('crc', 'u32')]))
S('un_nest', ('T', [I('k', 'u8'), Un('b', ('field', 'k'), [(0, TInt('u8')), (1, TInt('u16', con=lt(1000)))])]),
  ('W', [I('n', 'u8'), I('k', 'u8'), Un('b', ('field', 'k'), [(1, TRec('T')), (2, TVrec('T', lf('n'))), (3, TArec('T', 2))])]),
  ('L', [I('k', 'u8'), Un('b', ('field', 'k'), [(7, TRec('W')), (8, TRec('T')), (9, TInt('u8'))]), Maybe(Rec('o', 'W'), Fn(('==', '$0', 8), 'k')), I('z', 'u8')]))

# ---- breadth: values, names, sizes ---------------------------------------
S('anyof', ('L', [I('a', 'u8', con=any_of(9, 3, 200, 5, 0)), I('b', 'i16', con=any_of(7, -2, 300, -300)), I('c', 'u32', 3, con=any_of(0x30000, 1, 0xfffffe)),
                  I('d', 'u64', con=any_of(1 << 63, 5, 1 << 33, 1 << 40)), Arr('e', 'u8', [3], con=any_of([9, 1, 1], [2, 2, 2], [2, 1, 9])),
                  FStr('f', 3, con=any_of('zed', 'abc', 'mno')), I('g', 'u16', con=any_of(77)), I('h', 'i32', con=any_of(*[(k * 37) % 64 - 20 for k in range(16)])),
                  Arr('k', 'i16', [2], con=any_of([5, -1], [-1, 5], [0, 0])), I('z', 'u8')]))
S('con_edge', ('L', [I('a', 'u64', con=lt(0xfffffffffffffff0)), I('b', 'u64', con=gt(1 << 63)), I('c', 'i64', con=gte(-(1 << 63) + 1)), I('d', 'i64', con=lt(1 << 40)),
                     I('e', 'u32', con=gte(0x80000000)), I('f', 'i32', con=neq(-(1 << 31))), I('g', 'u8', con=lte(0)), I('h', 'u8', con=gte(255)),
                     I('i', 'i8', con=gt(-128)), I('j', 'u32', 2, con=gt(0xff00)), I('k', 'u64', 5, con=lte(0x7fffffffff)), I('l', 'u16', con=lt(1))]))
S('chars', ('L', [I('a', 'ch'), I('b', 'ch', con=neq(65)), Arr('c', 'ch', [4]), I('n', 'u8'), Vec('d', 'ch', lf('n')), I('m', 'ch', con=gte(0)), Vec('e', 'i8', lf('m')),
                  I('t', 'ch'), Un('u', ('field', 't'), [(65, TInt('ch')), (-3, TInt('u16')), (90, TArr('ch', [2]))]), Arr('f', 'i8', [3], con=neq([-1, 0, 1]))]))
S('narrow_s', ('L', [I('a', 'i32', 2), I('b', 'i32', 3), I('c', 'i64', 4), I('d', 'i64', 7), I('e', 'i16', 1), I('f', 'i32', 2, con=lt(40000)), I('n', 'i32', 1), Vec('v', 'u8', lf('n')),
                     I('t', 'i64', 2), Un('u', ('field', 't'), [(1, TInt('u8')), (0x8001, TInt('i32', 3)), (0xffff, TInt('i16'))])]))
S('names', ('R', [I('abcdefghijklmnop', 'u8'), I('abcdefghijklmnopq', 'u16', con=lt(40000)), I('abcdefghijklmno', 'u8')]),
  ('L', [I('x', 'u8', con=lt(250)), I('xy', 'u8', con=lt(250)), I('abcdefghijklmno', 'u8', con=lt(250)), I('abcdefghijklmnop', 'u8', con=lt(250)),
         I('abcdefghijklmnopq', 'u8', con=lt(250)), I('a_name_of_thirty_one_characters', 'u8', con=lt(250)), I('a_name_of_thirty_two_characters_', 'u8', con=lt(250)),
         I('a_name_of_thirty_three_characters', 'u8', con=lt(250)), I('n' * 64, 'u8'), Vec('v' * 65, 'u16', lf('n' * 64), ceil=20), Rec('r' * 100, 'R'),
         I('t' * 40, 'u8'), Un('u' * 41, ('field', 't' * 40), [(1, TInt('u8')), (2, TRec('R'))]), Maybe(I('m' * 50, 'u32'), Fn(('>', '$0', 100), 'xy')), I('_', 'u8')]))
S('odd_width', ('L', [I('n', 'u32', 3), Str('a', lf('n')), I('t', 'u32', 3),
                      Un('u', ('field', 't'), [(5, TInt('u8')), (1 << 24, TInt('u16')), ((1 << 24) + 5, TInt('u32')), ((1 << 32) - 1, TInt('i8')), ((1 << 24) - 1, TInt('i16'))]),
                      I('s', 'u64', 5), Un('v', ('field', 's'), [(9, TInt('u8')), ((1 << 40) + 9, TInt('u16')), ((1 << 40) - 1, TInt('u32')), (1 << 63, TInt('i8'))]),
                      I('r', 'u64', 6), Un('w', ('field', 'r'), [(0, TInt('u8')), (1 << 48, TInt('u16')), ((1 << 48) - 1, TInt('u32')), (1 << 56, TInt('i8'))]),
                      I('q', 'u64', 7), Un('x', ('field', 'q'), [(0, TInt('u8')), (1 << 56, TInt('u16')), ((1 << 56) - 1, TInt('u32'))]), I('z', 'u8')]))
S('masks', ('R', [I('x', 'u8')]),
  ('L', [I('f', 'u32', hints=[0, 0x300, 0x10000, 0x80000000, 1, 0xffffffff]), I('g', 'i16', hints=[0, -1, 256, -256, 1]), I('h', 'u64', hints=[0, 1 << 32, 1 << 63, 5, 1 << 16]),
         Maybe(I('a', 'u8'), Fn(('&', '$0', 0x300), 'f', ret='u32')), Maybe(I('b', 'u16'), Fn(('&', '$0', 0x80000000), 'f', ret='i64', style='lambda')),
         Maybe(I('c', 'u8'), Fn('$0', 'h', ret='u64', args=['u64'])), Maybe(I('d', 'u8'), Fn(('&', '$0', 0xff00), 'g', ret='i32', args=['i16'])),
         I('k', 'u8', hints=[0, 1, 2, 3]), Vec('v', 'u8', lfs(('&', ('+', '$0', 1), 255), 'k', ret='u8', args=['u8'])), Str('w', lfs(('&', '$0', 3), 'f', ret='i32', style='lambda')),
         VRec('r', 'R', lfs(('*', '$0', 2), 'k', ret='u16')),
         Un('u', ('ladder',), [(Fn(('&', '$0', 0x10000), 'f', ret='u32', args=['u32']), TInt('u8')), (Fn(('&', '$0', 1 << 63), 'h', ret='u64', style='lambda'), TInt('u16')),
                               (Fn(('>', '$0', 1), 'k', style='lambda'), TInt('u32')), (Fn(1), TInt('i8'))]),
         Un('x', ('compute', 'u32', Fn(('&', '$0', 0x10300), 'f', ret='u64', style='lambda')), [(0, TInt('u8')), (0x300, TInt('u16')), (0x10000, TInt('u32')), (0x10300, TInt('i8')), (0x100, TInt('i16'))]),
         I('z', 'u8')]), weight=1.5)
S('frozen_len', ('R', [I('x', 'u8')]),
  ('L', [MagN('n', 'u8', 3), I('f', 'u8', hints=[0, 1, 2, 3]), Maybe(Vec('a', 'u16', lf('n')), Fn(('&', '$0', 1), 'f')), Maybe(Str('b', lf('n')), Fn(('&', '$0', 2), 'f')),
         MagN('m', 'u32', 2), I('t', 'u8'), Un('u', ('field', 't'), [(0, TInt('u8')), (1, TVec('u32', lf('m'))), (2, TStr(lf('m'))), (3, TVrec('R', lf('n')))]),
         Maybe(VRec('c', 'R', lf('m')), Fn(('>', '$0', '$1'), 't', 'f')), MagN('z', 'u16', 0), Maybe(Vec('e', 'u8', lf('z')), Fn(('>', '$0', 1), 't')), I('y', 'u8')]))
S('roles', ('R', [I('x', 'u8')]),
  ('L', [I('t', 'u8', con=eq(2)), Un('u', ('field', 't'), [(0, TInt('u8')), (2, TInt('u16')), (3, TStr(lfs('$0', 't')))]),
         I('d', 'u16', con=lte(3)), Un('v', ('field', 'd'), [(1, TInt('u8')), (2, TInt('u32')), (3, TArr('u8', [2])), (4, TInt('i8'))]), Maybe(Vec('o', 'u8', lf('d')), Fn(('<', '$0', 3), 'd')),
         I('w', 'u8'),
         I('n', 'u8', con=neq(4)), Vec('a', 'u8', lf('n')), Maybe(Str('b', lf('n')), Fn(('>', '$0', 2), 'n')), Vec('c', 'u8', lfs(('+', '$0', '$1'), 'n', 'd')),
         Un('x', ('compute', 'u16', Fn(('+', '$0', '$1'), 'n', 't')), [(2, TInt('u8')), (3, TVec('u16', lf('n'))), (4, TVrec('R', lf('n'))), (5, TInt('u32')), (7, TStr(lf('n')))]),
         I('e', 'u8', con=eq(1)), Vec('f', 'u16', lf('e')), Maybe(I('g', 'u8'), Fn(('==', '$0', 1), 'e')), Un('h', ('compute', 'u8', Fn('$0', 'e')), [(1, TInt('u8')), (0, TInt('u16'))]), I('z', 'u8')]), weight=1.3)
S('un_wide64', ('L', [I('t', 'u64'), Un('u', ('field', 't'), [(1, TInt('u8')), ((1 << 32) + 1, TInt('u16')), (1 << 63, TInt('u32')), (0xffffffff, TInt('i8'))]),
                      I('s', 'u32'), Un('v', ('field', 's'), [(0x00000102, TInt('u8')), (0x00010002, TInt('u16')), (0x01000002, TInt('u32')), (2, TInt('u64'))])]))
S('un_many', ('A', [I('x', 'u8')]),
  ('L', [I('t', 'u8'), Un('u', ('field', 't'), [(11, TInt('u8')), (10, TInt('i8')), (9, TInt('u16')), (8, TInt('i16')), (7, TInt('u32')), (6, TInt('i32')), (5, TInt('u64')),
                                                (4, TInt('i64')), (3, TArr('u8', [2])), (2, TArr('u16', [1])), (1, TFstr(2)), (0, TRec('A'))]), I('z', 'u8')]), weight=1.5)
S('forty', ('L', [I('f%02d' % k, ['u8', 'u16', 'u32', 'u64'][(k * 7) % 4], con=(lt(200) if (k * 7) % 4 == 0 and k % 3 == 0 else None)) for k in range(38)] +
           [Vec('v', 'u8', lf('f04')), Maybe(I('o', 'u16'), Fn(('>', '$0', 128), 'f00')), I('last', 'u8')]), weight=1.5)
S('deep', ('A', [I('n', 'u8'), Vec('v', 'u8', lf('n'), ceil=8), I('x', 'u8', con=neq(13))]), ('B', [Rec('a', 'A'), I('y', 'u16')]), ('C', [I('n', 'u8'), VRec('bs', 'B', lf('n'), ceil=400)]),
  ('D', [I('t', 'u8'), Un('u', ('field', 't'), [(1, TRec('C')), (2, TInt('u8'))])]), ('E', [I('f', 'u8', hints=[0, 1]), Maybe(Rec('d', 'D'), Fn('$0', 'f'))]),
  ('L', [I('top', 'u8'), ARec('es', 'E', 2), Rec('e', 'E'), I('end', 'u8')]), weight=1.5)
S('share4', ('R', [I('x', 'u8'), I('n', 'u8'), Str('s', lf('n'))]),
  ('L', [I('n', 'u16'), Vec('a', 'u8', lf('n')), Str('b', lf('n')), VRec('c', 'R', lf('n')), Vec('d', 'u64', lf('n')), Vec('e', 'u16', lf('n'), dims=[2]), I('f', 'u8', hints=[0, 1]),
         Maybe(Vec('g', 'u32', lf('n')), Fn('$0', 'f')), Vec('h', 'u8', lfs(('+', '$0', '$1'), 'n', 'f')), I('z', 'u8')]), weight=1.3)
S('share_opt', ('A', [I('x', 'u8')]),
  ('L', [I('f', 'u8', hints=[0, 1, 2, 3, 4, 5, 6, 7]), I('n', 'u8'), Maybe(Str('a', lf('n')), Fn(('&', '$0', 1), 'f')),
         Maybe(Vec('b', 'u16', lf('n')), Fn(('&', '$0', 2), 'f')), Maybe(VRec('c', 'A', lf('n')), Fn(('&', '$0', 4), 'f')), I('t', 'u8'),
         Un('u', ('field', 't'), [(1, TVec('u8', lf('n'))), (2, TInt('u8')), (3, TStr(lf('n')))]),
         Un('v', ('ladder',), [(Fn(('==', '$0', 3), 'f'), TVec('u32', lf('n'))), (Fn(1, 'f'), TInt('u16'))]), I('z', 'u8')]))
S('opt_then', ('L', [I('f', 'u8', hints=[0, 1]), I('n', 'u16'), Maybe(Str('a', lf('n')), Fn('$0', 'f')), Vec('b', 'u8', lf('n')),
                     I('t', 'u8', hints=[0, 1]), I('m', 'u8'), Un('u', ('field', 't'), [(0, TStr(lf('m'))), (1, TInt('u16'))]), Maybe(Vec('c', 'u16', lf('m')), Fn('$0', 'f')),
                     Vec('d', 'u32', lfs('$0', 'm'))]))
S('arec_long', ('R', [I('x', 'u8'), I('y', 'u16', 1)]), ('L', [I('a', 'u8'), ARec('r', 'R', 256), Arr('t', 'u16', [2, 3, 2]), I('n', 'u8'), Vec('v', 'i16', lf('n'), dims=[2, 1, 3]),
                                                        I('t2', 'u8'), Un('u', ('field', 't2'), [(0, TArec('R', 257)), (1, TArr('u32', [260]))]), I('z', 'u8')]))
S('args4', ('L', [I('a', 'u8', hints=[0, 1, 2, 3]), I('b', 'u16', hints=[0, 1, 2]), I('c', 'u32', hints=[0, 1, 2]), I('d', 'u64', hints=[0, 1, 2, 3]),
                  Vec('p', 'u8', lfs(('+', ('-', ('*', '$0', 8), ('*', '$1', 4)), ('+', ('*', '$2', 2), '$3')), 'd', 'a', 'c', 'b'), ceil=64),
                  Maybe(I('q', 'u16'), Fn(('<', ('+', '$0', ('*', '$1', 2)), ('+', '$2', ('*', '$3', 3))), 'c', 'b', 'd', 'a')),
                  Un('u', ('compute', 'i16', Fn(('-', ('+', ('*', '$0', 3), '$1'), ('*', '$2', '$3')), 'b', 'd', 'a', 'c')), [(0, TInt('u8')), (1, TInt('u16')), (-1, TInt('u32')), (3, TInt('i8')), (6, TInt('i16'))]),
                  Un('w', ('ladder',), [(Fn(('<', '$0', '$1'), 'd', 'a'), TInt('u8')), (Fn(('==', ('+', '$2', '$1'), '$0'), 'a', 'c', 'b'), TInt('u32')), (Fn(1, 'a'), TInt('u16'))])]))
S('bigfix', ('L', [Arr('a', 'u8', [256]), Arr('b', 'u16', [300]), CArr('c', 'u32', 129), CStr('s', 300), FStr('f', 100), Arr('g', 'u64', [3, 43]), I('z', 'u8')]))
S('bigelem', ('R', [Arr('a', 'u8', [40]), I('x', 'u16')]),
  ('L', [I('n', 'u8'), Vec('a', 'u32', lf('n'), dims=[17]), I('m', 'u16'), VRec('b', 'R', lf('m'), ceil=1000), I('k', 'u8'), Vec('c', 'u8', lf('k'), dims=[100], ceil=350), ARec('d', 'R', 9)]))
S('ceil_wide', ('R', [I('x', 'u8'), I('y', 'u16')]),
  ('L', [I('n', 'u8'), Vec('a', 'u16', lf('n'), ceil=(1 << 32) + 8), I('m', 'u16'), Str('b', lf('m'), ceil=(1 << 31) + 3), I('k', 'u8'), VRec('c', 'R', lf('k'), ceil=(1 << 33) + 1),
         I('j', 'u16'), Vec('d', 'u8', lf('j'), ceil=(1 << 16) + 5), I('f', 'u8'), Maybe(Vec('e', 'u64', lf('f'), ceil=(1 << 40)), Fn(('&', '$0', 1), 'f')),
         I('t', 'u8', hints=[0, 1, 2]), Un('u', ('field', 't'), [(0, TVec('u32', lf('k'), ceil=(1 << 32) + 4)), (1, TStr(lf('n'), ceil=(1 << 63))), (2, TVec('u8', lf('j'), ceil=256))])]))
S('ceil_ext', ('L', [I('n', 'u64'), Vec('a', 'u32', lf('n'), ceil=0), I('m', 'u8'), Vec('b', 'u64', lf('m'), ceil=(1 << 64) - 1), I('k', 'u8'), Str('c', lf('k'), ceil=255),
                     I('j', 'i64'), Vec('d', 'u8', lf('j'), ceil=100), I('i', 'i8'), Vec('e', 'u16', lf('i'), ceil=254)]))
S('maybe_fix', ('L', [I('f', 'u8', hints=[0, 1, 2, 4, 7]), Maybe(Arr('a', 'u8', [300]), Fn(('&', '$0', 1), 'f')), Maybe(FStr('b', 20), Fn(('&', '$0', 2), 'f')), Maybe(I('c', 'ch'), Fn(('&', '$0', 4), 'f')),
                      Maybe(I('n', 'u8'), Fn(('&', '$0', 1), 'f')), Vec('v', 'u8', lfs(('&', ('val', '$0'), 7), 'n')), I('t', 'u8'),
                      Un('u', ('field', 't'), [(0, TInt('u8')), (1, TInt('u16')), (2, TInt('u32'))]), Str('s', lfs(('+', ('idx', '$0'), 1), 'u')), Maybe(I('w', 'u16'), Fn(('==', ('idx', '$0'), 2), 'u'))]))
S('un_selun', ('L', [I('t', 'u8'), Un('u', ('field', 't'), [(3, TInt('u8')), (4, TInt('u16')), (5, TArr('u8', [2]))]),
                     Un('v', ('compute', 'u16', Fn(('*', ('idx', '$0'), 1000), 'u')), [(2000, TInt('u8')), (0, TInt('u32')), (1000, TInt('i64'))]), I('f', 'u8', hints=[0, 1]), Maybe(I('o', 'u16'), Fn('$0', 'f')),
                     Un('w', ('ladder',), [(Fn(('not', ('has', '$0')), 'o'), TInt('u8')), (Fn(('<', ('val', '$0'), 0x8000), 'o'), TInt('u16')), (Fn(('has', '$0'), 'o'), TArr('u16', [3]))]), I('z', 'u8')]))
S('same_alt', ('L', [I('t', 'u8'), I('n', 'u8'), Un('u', ('field', 't'), [(0, TStr(lf('n'))), (1, TVec('u8', lf('n'), ceil=9)), (2, TVec('i8', lf('n'))), (3, TFstr(1)), (4, TArr('u8', [2])), (5, TArr('u8', [3]))]),
                     I('m', 'u8'), Str('s', lf('m'), con=fun(('<', ('size', '$0'), 200)))]))
S('rec_only', ('A', [I('x', 'u16')]), ('B', [Rec('p', 'A'), Rec('q', 'A'), ARec('r', 'A', 2)]), ('L', [Rec('a', 'B'), ARec('b', 'B', 2), Rec('c', 'A')]))
S('one', ('L', [I('only', 'u32', 3)]))
S('just_str', ('L', [I('n', 'u8'), Str('s', lf('n'))]))
S('tail_rec', ('A', [I('n', 'u8'), Str('s', lf('n'))]), ('L', [I('k', 'u8'), VRec('v', 'A', lf('k'))]))
S('float_con', ('L', [I('n', 'u8'), Vec('v', 'f32', lf('n'), ceil=64), Arr('a', 'f64', [3]), Maybe(Arr('b', 'f32', [2]), Fn(('>', '$0', 2), 'n')), I('z', 'u16')]), le_only=True)

S('vrec_long', ('R', [I('x', 'u8', con=neq(7))]), ('Q', [I('a', 'u16'), I('b', 'u8')]),
  ('L', [I('n', 'u32'), VRec('v', 'R', lf('n')), I('m', 'u16'), VRec('w', 'Q', lf('m')), I('k', 'u32'), Vec('e', 'u16', lf('k')), I('z', 'u8')]))
S('vec_long', ('L', [I('n', 'u32'), Vec('a', 'u16', lf('n'), dims=[2]), I('m', 'u64'), Vec('b', 'u64', lf('m')), I('k', 'u16'), Str('s', lf('k')), I('j', 'i16'), Vec('i', 'i32', lf('j')), I('z', 'u8')]))

S('nul_str', ('L', [MagS('m', 'A\0B'), FStr('e', 3, con=eq('x\0y')), FStr('o', 3, con=any_of('ab\0', 'a\0b', '\0\0\0')), FStr('q', 2, con=neq('\0z')),
                   I('t', 'u8'), Un('u', ('field', 't'), [(0, TFstr(2, eq('h\0'))), (1, TFstr(3, any_of('i\0i', 'jjj')))]), I('z', 'u8')]))
S('high_str', ('L', [MagS('m', '\x89P\n\xff'), FStr('o', 2, con=any_of('\x80\x7f', '\xfe\x01')), I('z', 'u8')]))

# ---- many of everything --------------------------------------------------
S('seventy', ('L', [I('f%02d' % k, 'u16' if k % 9 == 4 else 'u8', con=(neq(77) if k in (3, 33, 66) else None)) for k in range(68)] +
             [Vec('v', 'u8', lf('f65')), Str('w', lf('f02')), Maybe(I('o', 'u16'), Fn(('>', '$0', 128), 'f67')), I('t', 'u8'),
              Un('u', ('field', 't'), [(0, TInt('u8')), (1, TInt('u16'))]), I('last', 'u8')]))
S('un_forty', ('L', [I('t', 'u16'), Un('u', ('field', 't'), [((k * 77) % 512, TArr('u8', [k + 1])) for k in range(36)]), I('s', 'u8'),
                     Un('v', ('ladder',), [(Fn(('==', ('%', '$0', 34), k), 's'), TArr('u16' if k % 2 else 'u8', [k // 2 + 1])) for k in range(34)]), I('z', 'u8')]))
S('any_many', ('L', [I('a', 'u16', con=any_of(*[(k * 1009) % 65536 for k in range(40)])), I('b', 'i8', con=any_of(*[k * 7 - 120 for k in range(35)])),
                     Arr('c', 'u8', [2], con=any_of(*[[k, 255 - k] for k in range(12)])), FStr('d', 2, con=any_of('aa', 'ab', 'ba', 'bb', 'zz', '\0a', 'a\0', '~~', '09', '90')), I('z', 'u8')]))
S('long_names', ('L', [I('length', 'u8'), I('len', 'u8'), I('le', 'u16'), I('length_of_the_payload_that_follows_this_header_in_the_same_record_a', 'u8'),
                  I('length_of_the_payload_that_follows_this_header_in_the_same_record_b', 'u8'), Vec('l', 'u8', lf('le')), Str('payload', lf('len')), Vec('payload2', 'u16', lf('length')),
                  Str('length_of_the_payload_that_follows_this_header_in_the_same_record', lf('length_of_the_payload_that_follows_this_header_in_the_same_record_b')),
                  Vec('Len', 'u8', lf('length_of_the_payload_that_follows_this_header_in_the_same_record_a')),
                  I('tag', 'u8'), I('tag2', 'u8'), Un('tagged', ('field', 'tag2'), [(1, TInt('u8')), (2, TInt('u32'))]), Un('ta', ('field', 'tag'), [(2, TInt('u16')), (3, TInt('u8'))]),
                  Maybe(I('t', 'u8'), Fn(('>', '$0', 2), 'tag')), I('la', 'u8', con=lt(100)), I('last', 'u8', con=gt(100))]))
S('deep10', ('A0', [I('n', 'u8'), Str('s', lf('n'), ceil=9), I('x', 'u8', con=neq(200))]),
  *[('A%d' % k, [I('n', 'u8', hints=[0, 1]), Rec('r', 'A%d' % (k - 1)), Vec('v', 'u16', lf('n'))]) for k in range(1, 10)],
  ('L', [I('n', 'u8'), Rec('r', 'A9'), Str('v', lf('n')), I('x', 'u8')]))
S('share12', ('R', [I('x', 'u8')]),
  ('L', [I('n', 'u8'), I('m', 'u8', con=lte(100))] + [Vec('v%d' % k, ['u8', 'u16', 'u32'][k % 3], lf('n' if k % 4 else 'm')) for k in range(11)] + [VRec('r', 'R', lf('n')), Str('s', lf('m'))]))

# ---- formats -------------------------------------------------------------
S('gzip', ('L', [MagB('magic', [0x1f, 0x8b]), I('method', 'u8', con=eq(8)), I('flags', 'u8', hints=[0, 1, 2, 4, 8, 16, 12, 31]), I('mtime', 'u32'),
                 I('xfl', 'u8'), I('os', 'u8', con=any_of(0, 3, 255)), I('xlen', 'u16'), Maybe(Vec('extra', 'u8', lf('xlen')), Fn(('&', '$0', 4), 'flags')),
                 I('nlen', 'u8'), Maybe(Str('name', lf('nlen')), Fn(('&', '$0', 8), 'flags')), Maybe(I('hcrc', 'u16'), Fn(('&', '$0', 2), 'flags'))]))
S('wav', ('C', [I('id', 'u32', con=any_of(1, 2, 3)), I('n', 'u32'), Vec('d', 'i16', lf('n'), ceil=4096)]),
  ('L', [MagS('riff', 'RIF'), I('fmt', 'u16', con=eq(1)), I('ch', 'u16', con=any_of(1, 2)), I('rate', 'u32', con=gte(8000)),
         I('bits', 'u16', con=any_of(8, 16, 24)), I('n', 'u8'), VRec('chunks', 'C', lf('n'), ceil=4096)]))
S('packet', ('Opt', [I('kind', 'u8'), I('len', 'u8'), Str('data', lf('len'), ceil=40)]),
  ('Hdr', [I('ver', 'u8', con=eq(4)), I('opt_count', 'u8', con=lte(10)), I('flags', 'u8', hints=[0, 1, 2, 3]), VRec('opts', 'Opt', lf('opt_count')),
           Maybe(I('seq', 'u32'), Fn(('&', '$0', 1), 'flags'))]),
  ('L', [Rec('hdr', 'Hdr'), I('kind', 'u8'), I('n', 'u16'),
         Un('body', ('field', 'kind'), [(1, TStr(lf('n'), ceil=64)), (2, TVec('u16', lf('n'), ceil=64)), (3, TRec('Opt')), (4, TVrec('Opt', lf('n'), ceil=400))]),
         I('crc', 'u16')]), weight=1.5)
S('matrix', ('Row', [I('c', 'u8'), Vec('v', 'i32', lf('c'))]),
  ('L', [I('r', 'u8', hints=[0, 1, 2, 3]), I('s', 'u8', hints=[0, 1, 2]), VRec('rows', 'Row', lfs(('*', '$0', '$1'), 'r', 's')), Arr('dim', 'u16', [2, 2]),
         Maybe(Vec('tail', 'u8', lfs(('+', '$0', '$1'), 'r', 's')), Fn(('!=', '$0', '$1'), 'r', 's'))]))
S('wide20', ('L', [I('f%02d' % k, ['u8', 'u16', 'u32', 'u64'][k % 4], con=(lt(250) if k == 8 else None)) for k in range(20)]))


assert len({s.name for s in P}) == len(P)


def by_name():
    return {s.name: s for s in P}
assert FILES <= {s.name for s in P}, FILES - {s.name for s in P}
