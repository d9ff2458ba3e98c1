"""LSH signatures and bit counts.  Integers are mathematical; bitwise operations on them are given bit by bit (theory.bitop); popcount64 is
proved on words of 128 bits with an obligation that no operation leaves them."""
import ast
from contracts.common import *

P31, M32 = 4294967311, 2 ** 32 - 1
I = z3.IntSort()
p, q, t, a_, b_ = z3.Ints('p! q! t! a! b!')
PARAM = TTup(INT, INT)
ONES = z3.Function('ones', I, I)                # number of one bits of a natural number
HASH = z3.Function('universal_hash', I, I, I, I)
CRC = z3.Function('crc', STR.sort(), I)
S0 = z3.Int('S0')                               # any position of the signature
bit = TY.bit


def ones(): return [ONES(0) == 0, forall([p], implies(p > 0, ONES(p) == p % 2 + ONES(p / 2)), ONES(p))]


def hash_def(): return forall([a_, b_, t], HASH(a_, b_, t) == (a_ * t + b_) % P31, HASH(a_, b_, t))


# ------------------------------------------------------------------------------------------- bit counts
def table_inv(S):
    T = S.POPCOUNT_TABLE16
    return [T.n == 2 ** 16, forall([p], implies(z3.And(0 <= p, p < S.k), T.arr[p] == ONES(p)), T.arr[p]), forall([p], implies(p >= S.k, T.arr[p] == 0), T.arr[p])]


def table_hint(S):
    k = S.pre.ghost(('k', TABLE))
    return [('the half is known', z3.And(ONES(k) == k % 2 + ONES(k / 2), S.pre.POPCOUNT_TABLE16.arr[k / 2] == ONES(k / 2)))]


TABLE = ('<module>', 0)


def table_post(S):
    T = S.POPCOUNT_TABLE16
    return [T.n == 2 ** 16, forall([p], implies(z3.And(0 <= p, p < 2 ** 16), T.arr[p] == ONES(p)), T.arr[p])]


def table(E, st):
    """the table as the statements run on import leave it"""
    arr = z3.Const('table16', z3.ArraySort(I, I))
    r = E.new_cell(st, Lst(z3.IntVal(2 ** 16), arr, INT))
    st.assume(forall([p], implies(z3.And(0 <= p, p < 2 ** 16), arr[p] == ONES(p)), arr[p]))
    return r


def split(x, k): return ONES(x) == ONES(x % 2 ** k) + ONES(x / 2 ** k)


def split_lemma():
    def goals():
        x = z3.Int('x')
        f = ones()
        out = [('k=0', f, implies(x >= 0, ONES(x) == ONES(0) + ONES(x)))]
        for k in range(16):
            # ones(x) = x%2 + ones(x/2), and x/2 splits at k
            h = x / 2
            m, d = h % 2 ** k, h / 2 ** k
            out.append(('k=%d' % (k + 1), f + [ONES(h) == ONES(m) + ONES(d), x % 2 ** (k + 1) == 2 * m + x % 2, x / 2 ** (k + 1) == d, (2 * m + x % 2) / 2 == m, (2 * m + x % 2) % 2 == x % 2],
                        implies(x >= 0, split(x, k + 1))))
            out.append(('division by 2^%d' % (k + 1), [], z3.And(x % 2 ** (k + 1) == 2 * m + x % 2, x / 2 ** (k + 1) == d, (2 * m + x % 2) / 2 == m, (2 * m + x % 2) % 2 == x % 2)))
        return out
    return Lemma('SPLIT: the ones of a number are those of its low 16 bits and of the rest (induction over the number of bits)', goals)


def split16(x): return implies(x >= 0, split(x, 16))


W = 128


def bits_sum(x): return sum([z3.ZeroExt(7, z3.Extract(i, i, x)) for i in range(64)], z3.BitVecVal(0, 8))


def binstr(E, st, args, kw, node): return [(st, Opaque('bin', x=E.num(args[0])))]


def count1(E, st, args, kw, node, f):
    """the number of '1' in the binary digits"""
    if args != ['1']: raise Stale('the digit counted')
    return [(st, ONES(f.base.x))]


count1.wants_fn = True


# ------------------------------------------------------------------------------------------- similarities
DIFF = z3.Function('differences', I, I)
HAM = z3.Function('hamming', I, I)


def sim_defs(S):
    A, B = S.arg('A'), S.arg('B')
    return [A.n == B.n, A.n >= 1, DIFF(0) == 0, forall([p], implies(p >= 0, DIFF(p + 1) == DIFF(p) + z3.If(A.arr[p] == B.arr[p], 0, 1)), DIFF(p + 1))]


def word(x): return z3.And(0 <= x, x < 2 ** 64)


def lsb_defs(S):
    A, B = S.arg('A'), S.arg('B')
    xor = TY.bitop('xor')
    return [A.n == B.n, A.n >= 1, forall([p], implies(z3.And(0 <= p, p < A.n), z3.And(word(A.arr[p]), word(B.arr[p]))), A.arr[p], B.arr[p]),
            HAM(0) == 0, forall([p], implies(p >= 0, HAM(p + 1) == HAM(p) + ONES(xor(A.arr[p], B.arr[p]))), HAM(p + 1))]


def pc64(E, st, env, node):
    """the contract of popcount64"""
    E.oblige(st, 'precondition of popcount64', word(env['x']), node, 'call')
    return [(st, ONES(env['x']))]


def sim_hint(F, lid):
    return lambda S: [('one more position', F(S.pre.ghost(('k', lid)) + 1) == F(S.pre.ghost(('k', lid))) + S.hamming - S.pre.hamming)]


# ------------------------------------------------------------------------------------------- signatures
def seq(S):
    """(n, code): the i-th token is hashed as code(i)"""
    d = S._E.args0raw['sequence']
    if isinstance(d, Gen): return d.n, (lambda i: CRC(d.arr[i])), (lambda i: d.arr[i])
    d = S.arg('sequence')
    if isinstance(d, z3.ExprRef): return TY.slen(d), (lambda i: TY.sat(d, i)), (lambda i: TY.sat(d, i))
    return d.n, (lambda i: CRC(d.arr[i])), (lambda i: d.arr[i])


def is_min(S, m, a, b):
    """m is the least hash of the tokens, 2^32 - 1 at most"""
    n, code, trig = seq(S)
    return z3.And(m <= M32, forall([p], implies(z3.And(0 <= p, p < n), m <= HASH(a, b, code(p))), trig(p)),
                  z3.Or(m == M32, exists([p], z3.And(0 <= p, p < n, m == HASH(a, b, code(p))), trig(p))))


def so_far(S, m, a, b, T):
    return [m <= M32, m >= 0, forall([t], implies(T[t], m <= HASH(a, b, t)), T[t], HASH(a, b, t)), z3.Or(m == M32, exists([t], z3.And(T[t], m == HASH(a, b, t)), HASH(a, b, t)))]


def ord_(E, st, args, kw, node):
    c = args[0]
    if not (z3.is_app(c) and c.num_args() == 1): raise Unsupported('ord')
    return [(st, c.arg(0))]


def crc_of(E, st, env, node):
    E.used.add('fog/lsh/utils.py:crc32 (by contract)')
    return [(st, CRC(env['x']))]


PARAMS = z3.Const('params', z3.ArraySort(I, PARAM.sort()))
NH = z3.Int('h')
AV, BV = z3.Const('A', z3.ArraySort(I, I)), z3.Const('B', z3.ArraySort(I, I))


def me(S): return S._E.read(S._st, S._E.args0raw['self'])


def minhash_obj(numpy):
    def f(E, st):
        params = None if numpy else E.new_cell(st, Lst(NH, PARAMS, PARAM))
        return E.new_cell(st, Obj(E.global_value(st, E.module, 'MinHash'), {'A': Opaque('vec', n=NH, elem=lambda s: AV[s], bits=32) if numpy else None, 'B': Opaque('vec', n=NH, elem=lambda s: BV[s], bits=32) if numpy else None,
                                                                            'params': params, 'numpy': numpy, 'h': NH}))
    return f


def lsb_obj(E, st):
    return E.new_cell(st, Obj(E.global_value(st, E.module, 'LSBMinHash'), {'params': E.new_cell(st, Lst(64 * NH, PARAMS, PARAM)), 'precision': NH}))


def ab(i): return PARAM.get(0, PARAMS[i]), PARAM.get(1, PARAMS[i])


def codes(S):
    n, code, trig = seq(S)
    return [hash_def(), NH >= 0, n >= 0, forall([p], implies(z3.And(0 <= p, p < n), z3.And(0 <= code(p), code(p) <= M32)), trig(p))]


def mh_pre(S):
    return codes(S) + [0 <= S0, S0 < NH, forall([p], implies(z3.And(0 <= p, p < NH), z3.And(1 <= AV[p], AV[p] < M32, 0 <= BV[p], BV[p] < M32)), AV[p])]


def toks(S): return S.tokens.set


SIG, TOKS = ('create_signature', 0), ('create_signature', 1)


def sig_inv(S):
    n, code, trig = seq(S)
    a, b = ab(S0)
    return [S.signature.n == NH, implies(S.k > S0, z3.And(*so_far(S, S.signature.arr[S0], a, b, toks(S))))]


def tok_inv(S):
    return [S.signature.n == NH] + so_far(S, S.min_hash, S.a, S.b, S.seen)


def mh_final(S):
    """from the set of tokens to the sequence"""
    if not S.has('tokens'): return []
    n, code, trig = seq(S)
    T = toks(S)
    return [('there is a token', implies(n > 0, T[code(z3.IntVal(0))])), ('the tokens are the codes of the sequence', forall([p], implies(z3.And(0 <= p, p < n), T[code(p)]), trig(p))),
            ('no other', forall([t], implies(T[t], exists([p], z3.And(0 <= p, p < n, code(p) == t), trig(p))), T[t]))]


def mh_post(S):
    n, code, trig = seq(S)
    r = S.rawresult
    if isinstance(r, Opaque):
        if r.name != 'vec' or r.bits != 32: return z3.BoolVal(False)
        ln, m, a, b = r.n, r.elem(S0), AV[S0], BV[S0]
    else:
        ln, m = S.result.n, S.result.arr[S0]
        a, b = ab(S0)
    return [ln == NH, implies(n == 0, m == 0), implies(n > 0, is_min(S, m, a, b))]


def same_lemma():
    def goals():
        T = z3.Const('T', z3.ArraySort(I, z3.BoolSort()))
        m, n, a, b = z3.Ints('m n a b')
        return [('unique', so_far(None, m, a, b, T) + so_far(None, n, a, b, T), m == n)]
    return Lemma('SAME: a set of tokens and a pair of parameters determine the least hash', goals)


# numpy: vectors, matrices whose rows are the tokens; `bits` is the width of the unsigned type
def fits(E, st, m, what, node):
    r, c = z3.Ints('r! c!')
    v = m.elem(r, c)
    E.oblige(st, '%s fits in %d bits' % (what, m.bits), z3.ForAll([r, c], implies(z3.And(m.rows[r], 0 <= c, c < m.cols), z3.And(0 <= v, v < 2 ** m.bits))), node, 'no-raise')


def np_repeat(E, st, args, kw, node):
    c = E.read(st, args[0])
    s = getattr(c, 'set_', None)
    return [(st, Opaque('matrix', rows=E.repeat_set, cols=E.num(args[1]), elem=lambda r, c: r, bits=63, shaped=False))]


def np_list(E, st, args, kw, node):
    """list(tokens): remembered as the set it comes from"""
    if len(args) == 1 and isinstance(args[0], (Ref, View)) and E.read(st, args[0]).kind == 'set': E.repeat_set = E.read(st, args[0]).arr
    return None


def astype(E, st, args, kw, node, f):
    if not isinstance(args[0], Opaque) or not args[0].name.startswith('np.uint'): raise Unsupported('dtype')
    m = Opaque(f.base.name, **{k: v for k, v in f.base.__dict__.items() if k != 'name'})
    m.bits = int(args[0].name[7:])
    if m.name == 'matrix': fits(E, st, m, 'the conversion', node)
    else:
        c = z3.Int('c!')
        E.oblige(st, 'the conversion fits in %d bits' % m.bits, z3.ForAll([c], implies(z3.And(0 <= c, c < m.n), z3.And(0 <= m.elem(c), m.elem(c) < 2 ** m.bits))), node, 'no-raise')
    return [(st, m)]


astype.wants_fn = True


def set_shape(E, st, m, v):
    r, c = v.items
    E.oblige(st, 'the shape: a row by token', z3.And(E.num(r) == TY.card(m.rows), E.num(c) == m.cols), None, 'no-raise')
    m.shaped = True


def mat_op(E, st, op, m, v, node):
    if not m.shaped: raise Stale('the shape')
    old = m.elem
    if isinstance(v, Opaque) and v.name == 'vec':
        E.oblige(st, 'as many columns', v.n == m.cols, node, 'no-raise')
        val = lambda c: v.elem(c)
    else:
        E.oblige(st, 'the operand fits', z3.And(0 <= E.num(v), E.num(v) < 2 ** m.bits), node, 'no-raise')
        val = lambda c: E.num(v)
    f = {ast.Mult: lambda x, y: x * y, ast.Add: lambda x, y: x + y, ast.Mod: lambda x, y: x % y}.get(type(op))
    if f is None: raise Unsupported('numpy operator')
    n = Opaque('matrix', rows=m.rows, cols=m.cols, bits=m.bits, shaped=True, elem=lambda r, c: f(old(r, c), val(c)))
    # bounds of the products, for the solver
    r, c = z3.Ints('r! c!')
    if isinstance(op, ast.Mult) and isinstance(v, Opaque):
        E.oblige(st, 'product of two words of 32 bits', z3.ForAll([r, c], implies(z3.And(m.rows[r], 0 <= c, c < m.cols), z3.And(0 <= n.elem(r, c), n.elem(r, c) <= M32 * (M32 - 1)))), node, 'hint')
    fits(E, st, n, 'the result', node)
    return n


def mat_min(E, st, args, kw, node, f):
    m = f.base
    if E.num(kw.get('axis')).as_long() != 0 or args: raise Stale('axis')
    r, c = z3.Ints('r! c!')
    M = z3.Function(E.fresh('M', I).decl().name(), I, I)
    E.oblige(st, 'the minimum of something', TY.card(m.rows) > 0, node, 'no-raise')
    st.assume(forall([r, c], implies(z3.And(m.rows[r], 0 <= c, c < m.cols), M(c) <= m.elem(r, c)), z3.MultiPattern(m.rows[r], M(c))),
              forall([c], implies(z3.And(0 <= c, c < m.cols), z3.Exists([r], z3.And(m.rows[r], M(c) == m.elem(r, c)))), M(c)))
    return [(st, Opaque('vec', n=m.cols, elem=lambda c: M(c), bits=m.bits))]


mat_min.wants_fn = True


def np_minimum(E, st, args, kw, node):
    v, c = args
    if not isinstance(v, Opaque) or v.name != 'vec': raise Unsupported('np.minimum')
    c = E.num(c)
    return [(st, Opaque('vec', n=v.n, bits=v.bits, elem=lambda s: z3.If(v.elem(s) < c, v.elem(s), c)))]


NUMPY = {'global:np': lambda E, st: Opaque('np'), 'np.zeros': lambda E, st, args, kw, node: [(st, Opaque('vec', n=E.num(args[0]), elem=lambda s: z3.IntVal(0), bits=int(kw['dtype'].name[7:])))],
         'np.repeat': np_repeat, 'builtin:list': np_list, 'matrix.astype': astype, 'vec.astype': astype, 'setattr:matrix.shape': set_shape, 'binop:matrix': mat_op, 'matrix.min': mat_min, 'np.minimum': np_minimum}

EXT = dict({'builtin:ord': ord_}, **NUMPY)
SEQS = (('a string', STR), ('a list of tokens', TList(STR)), ('a stream of tokens', TStream(STR)))

# LSB signatures
MINH = z3.Function('least_hash', I, I)          # of each pair of parameters
J0 = z3.Int('J0')                               # any bit
WORDS, BITS, LTOKS = ('create_signature', 0), ('create_signature', 1), ('create_signature', 2)


M0 = z3.Int('M0')                               # the least hash for the pair of parameters of this bit


def lsb_pre(S):
    return codes(S) + [0 <= S0, S0 < NH, 0 <= J0, J0 < 64, is_min(S, M0, *ab(64 * S0 + J0))]


def lsb_entry(S):
    """the least hash, from the sequence to the set of tokens"""
    return mh_final(S) + [('least hash over the set of tokens', z3.And(*so_far(S, M0, *ab(64 * S0 + J0), toks(S))))]


def lsb_outer(S):
    return [S.signature.n == NH, implies(S.k > S0, z3.And(word_bits(S.signature.arr[S0], 64), bit(S.signature.arr[S0], J0) == M0 % 2))]


def word_bits(x, n): return z3.And(x >= 0, forall([q], implies(q >= n, bit(x, q) == 0), bit(x, q)))


def lsb_bits(S):
    return [S.signature.n == NH, word_bits(S.integer, S.k), S.offset == 64 * S.s,
            implies(z3.And(S.s == S0, S.k > J0), bit(S.integer, J0) == M0 % 2)]


def lsb_hint(S):
    k = S.pre.ghost(('k', BITS))
    return [('this is the least hash', implies(z3.And(S.s == S0, k == J0), S.min_hash == M0)), ('one more bit', forall([q], implies(q >= 0, bit(S.integer, q) == z3.If(q == k, S.min_hash % 2, bit(S.pre.integer, q))), bit(S.integer, q)))]


def lsb_post(S):
    n, code, trig = seq(S)
    w = S.result.arr[S0]
    return [S.result.n == NH, w >= 0, word_bits(w, 64), implies(n == 0, w == 0), implies(n > 0, bit(w, J0) == M0 % 2)]


# ------------------------------------------------------------------------------------------- parameters
def draws(S):
    return [TY.card(S.params.set) >= 0, TY.card(S.params.set) <= z3.If(limit(S) > 0, limit(S), 0)]


def limit(S): return S.arg('h') if 'h' in S._E.args0raw else 64 * S.arg('precision')


def randint(E, st, args, kw, node):
    """an integer of the interval"""
    lo, hi = E.num(args[0]), E.num(args[1])
    E.oblige(st, 'a non-empty interval', lo <= hi, node, 'no-raise')
    x = E.fresh('random', I)
    st.assume(lo <= x, x <= hi)
    return [(st, x)]


def np_randint(E, st, args, kw, node):
    lo, hi = (E.num(x) for x in args)
    if set(kw) != {'size', 'dtype'} or kw['dtype'] != 'uint32': raise Unsupported('np.random.randint')
    arr = E.fresh('random', z3.ArraySort(I, I))
    st.assume(forall([p], z3.And(lo <= arr[p], arr[p] < hi), arr[p]))
    return [(st, Opaque('vec', n=E.num(kw['size']), elem=lambda s: arr[s], bits=32))]


RNG = {'random.Random': lambda E, st, args, kw, node: [(st, Opaque('rng'))], 'rng.randint': randint, 'global:np': lambda E, st: Opaque('np'), 'np.random.seed': lambda E, st, args, kw, node: [(st, None)], 'np.random.randint': np_randint}
pr = z3.Const('pr!', PARAM.sort())


def in_range(x): return z3.And(1 <= PARAM.get(0, x), PARAM.get(0, x) <= M32, 0 <= PARAM.get(1, x), PARAM.get(1, x) <= M32)


def params_inv(S):
    if S.params.c.t is None: return []
    return [TY.card(S.params.set) <= z3.If(limit(S) > 0, limit(S), 0), forall([pr], implies(S.params.set[pr], in_range(pr)), S.params.set[pr])]


def init_post(S):
    o = me(S)
    f = o.fields
    E = S._E
    if 'h' in E.args0raw:
        if E.num(f['h']) is None: return z3.BoolVal(False)
        base = [E.num(f['h']) == S.arg('h'), z3.BoolVal(f['numpy'] is E.args0raw['use_numpy'])]
        if f['numpy']:
            A, B = f['A'], f['B']
            return base + [A.n == S.arg('h'), B.n == S.arg('h'), forall([p], z3.And(1 <= A.elem(p), A.elem(p) < M32), A.elem(p)), forall([p], z3.And(0 <= B.elem(p), B.elem(p) < M32), B.elem(p))]
    else: base = [E.num(f['precision']) == S.arg('precision')]
    c = E.read(S._st, f['params'])
    return base + [c.n == limit(S), forall([p], implies(z3.And(0 <= p, p < c.n), in_range(c.arr[p])), c.arr[p])]


def fresh_obj(name): return lambda E, st: E.new_cell(st, Obj(E.global_value(st, E.module, name), {}))


# ------------------------------------------------------------------------------------------- simhash
DIG = z3.Function('digest', STR.sort(), I)      # the first f bits
CNT = z3.Function('tokens_with_bit', I, I, I)   # among the first tokens, those whose digest has the bit


def sh_src(S):
    d = S._E.args0raw['tokens']
    return (d.n, d.arr) if isinstance(d, Gen) else (S.arg('tokens').n, S.arg('tokens').arr)


def sh_pre(S):
    n, arr = sh_src(S)
    return [n >= 0, forall([q], CNT(0, q) == 0, CNT(0, q)), forall([p, q], implies(p >= 0, CNT(p + 1, q) == CNT(p, q) + bit(DIG(arr[p]), q)), CNT(p + 1, q))]


def hasher(name):
    return lambda E, st, args, kw, node: [(st, Opaque('hasher', kind=name, data=None))]


def sh_update(E, st, args, kw, node, f):
    h = f.base
    if h.data is not None or not isinstance(args[0], Opaque) or args[0].name != 'bytes': raise Stale('what is hashed')
    h.data = args[0].x
    return [(st, None)]


sh_update.wants_fn = True


def hexdigest(E, st, args, kw, node, f):
    return [(st, Opaque('hex', kind=f.base.kind, data=f.base.data))]


hexdigest.wants_fn = True
SIZE = {'md5': 128, 'sha256': 256, 'sha512': 512}


def sh_slice(E, st, v, lo, hi, *rest):
    l, h = E.num(lo) if lo is not None else z3.IntVal(0), E.num(hi)
    if z3.simplify(l).as_long() != 0: raise Stale('the digits taken')
    return Opaque('digits', kind=v.kind, data=v.data, n=z3.simplify(h).as_long())


def sh_int(E, st, args, kw, node):
    d = args[0]
    if not isinstance(d, Opaque) or d.name != 'digits': return None
    f = E.args0raw['f']
    want = {256: 'sha256', 512: 'sha512'}.get(f, 'md5')
    if d.kind != want or d.n * 4 != f or d.data is None or z3.simplify(E.num(args[1])).as_long() != 16: raise Stale('the digest used')
    return [(st, DIG(d.data))]


HT, HB, HS = ('simhash', 0), ('simhash', 1), ('simhash', 2)


def hist(S, k, i):
    """histogram: the first i bits have counted k + 1 tokens, the others k"""
    H = S.histogram
    j = z3.If(q < i, k + 1, k)
    return [H.n == S.arg('f'), k >= 0, forall([q], implies(z3.And(0 <= q, q < i), H.arr[q] == 2 * CNT(k + 1, q) - (k + 1)), H.arr[q]), forall([q], implies(z3.And(i <= q, q < H.n), H.arr[q] == 2 * CNT(k, q) - k), H.arr[q])]


def sh_bits(S):
    n, arr = sh_src(S)
    x = S.signature
    return [S.histogram.n == S.arg('f'), forall([q], implies(z3.And(0 <= q, q < S.k), bit(x, q) == z3.If(S.histogram.arr[q] > 0, 1, 0)), bit(x, q)), forall([q], implies(q >= S.k, bit(x, q) == 0), bit(x, q)), x >= 0]


def sh_hint(S):
    k = S.pre.ghost(('k', HS))
    return [('one more bit', forall([q], implies(q >= 0, bit(S.signature, q) == z3.If(q == k, z3.If(S.histogram.arr[k] > 0, 1, 0), bit(S.pre.signature, q))), bit(S.signature, q)))]


def sh_post(S):
    n, arr = sh_src(S)
    x, f = S.result, S.arg('f')
    return [x >= 0, forall([q], implies(z3.And(0 <= q, q < f), (bit(x, q) == 1) == (2 * CNT(n, q) > n)), bit(x, q)), forall([q], implies(q >= f, bit(x, q) == 0), bit(x, q))]


def sh_dist(S):
    return real(ONES(TY.bitop('xor')(S.arg('A'), S.arg('B')))) / real(S.arg('f'))


def popsum(E, st, env, node): return [(st, ONES(env['x']))]


U, MH, SH = 'fog/lsh/utils.py:', 'fog/lsh/minhash.py:', 'fog/lsh/simhash.py:'
CONTRACTS = [
    Contract(U + '<module>', [Case('', {}, pre=lambda S: ones())], loops={TABLE: Loop([('the table so far', table_inv)], hint=table_hint)}, post=[('the table holds the number of ones of every index', table_post)]),
    Contract(U + 'popcount', [Case('any natural number', {'x': INT}, pre=lambda S: [S.arg('x') >= 0])], externals={'builtin:bin': binstr, 'bin.count': count1}, post=[('the number of ones', lambda S: S.result == ONES(S.arg('x')))]),
    Contract(U + 'popcount16', [Case('16 bits', {'x': INT}, pre=lambda S: [S.arg('x') >= 0, S.arg('x') < 2 ** 16])], externals={'global:POPCOUNT_TABLE16': table}, post=[('the number of ones', lambda S: S.result == ONES(S.arg('x')))]),
    Contract(U + 'popcount32', [Case('32 bits', {'x': INT}, pre=lambda S: [S.arg('x') >= 0, S.arg('x') < 2 ** 32])], externals={'global:POPCOUNT_TABLE16': table}, lemmas=lambda S: [split16(S.arg('x'))],
             post=[('the number of ones', lambda S: S.result == ONES(S.arg('x')))]),
    Contract(U + 'popcount64', [Case('64 bits', {'x': TBV(W)}, pre=lambda S: [z3.ULT(S.arg('x'), z3.BitVecVal(2 ** 64, W))])], post=[('the number of ones', lambda S: S.result == z3.ZeroExt(W - 8, bits_sum(S.arg('x'))))]),
    Contract(U + 'crc32', [Case('any string', {'x': STR})], externals={'method:str.encode': lambda E, st, v, args, kw, node: [(st, Opaque('bytes', x=v))], 'binascii.crc32': lambda E, st, args, kw, node: [(st, CRC(args[0].x))]},
             post=[('the checksum on 32 bits', lambda S: S.result == CRC(S.arg('x')) % 2 ** 32)]),
    Contract(MH + 'minhash_similarity', [Case('two signatures', {'A': TList(INT), 'B': TList(INT)}, pre=sim_defs)], loops={('minhash_similarity', 0): Loop([('differences so far', lambda S: S.hamming == DIFF(S.k))], hint=sim_hint(DIFF, ('minhash_similarity', 0)))},
             post=[('the fraction of equal positions', lambda S: S.result * real(S.arg('A').n) == real(S.arg('A').n - DIFF(S.arg('A').n)))]),
    Contract(MH + 'lsb_minhash_similarity', [Case('two signatures', {'A': TList(INT), 'B': TList(INT)}, pre=lsb_defs)], summaries={'popcount64': pc64},
             loops={('lsb_minhash_similarity', 0): Loop([('hamming distance so far', lambda S: S.hamming == HAM(S.k))], hint=sim_hint(HAM, ('lsb_minhash_similarity', 0)))},
             post=[('1 - 2 hamming / bits', lambda S: (1 - S.result) * 64 * real(S.arg('A').n) == 2 * real(HAM(S.arg('A').n)))]),
    Contract(MH + 'MinHash.__init__', [Case('numpy' if u else 'no numpy', {'self': fresh_obj('MinHash'), 'h': INT, 'seed': None, 'use_numpy': u}, pre=lambda S: [S.arg('h') >= 0]) for u in (False, True)], mutates=('self',), externals=RNG,
             loops={('__init__', 0): Loop([('distinct pairs so far', params_inv)])}, post=[('h pairs of parameters', init_post)]),
    Contract(MH + 'LSBMinHash.__init__', [Case('any precision', {'self': fresh_obj('LSBMinHash'), 'precision': INT, 'seed': None}, pre=lambda S: [S.arg('precision') >= 0])], mutates=('self',), externals=RNG,
             loops={('__init__', 0): Loop([('distinct pairs so far', params_inv)])}, post=[('64 pairs of parameters by word', init_post)]),
    Contract(MH + 'MinHash.create_signature', [Case('%s%s' % (n, ', numpy' if u else ''), {'self': minhash_obj(u), 'sequence': s}, pre=mh_pre) for n, s in SEQS for u in (False, True)], externals=EXT, summaries={'crc32': crc_of},
             loops={SIG: Loop([('positions so far', sig_inv)]), TOKS: Loop([('least hash so far', tok_inv)])}, final=mh_final, post=[('the least hash of the tokens at every position', mh_post)]),
    Contract(MH + 'LSBMinHash.create_signature', [Case(n, {'self': lsb_obj, 'sequence': s}, pre=lsb_pre) for n, s in SEQS], externals=EXT, summaries={'crc32': crc_of},
             loops={WORDS: Loop([('words so far', lsb_outer)], entry=lsb_entry), BITS: Loop([('bits so far', lsb_bits)], hint=lsb_hint, force=True), LTOKS: Loop([('least hash so far', lambda S: tok_inv(S))])}, final=mh_final,
             post=[('each bit is the low bit of a least hash', lsb_post)]),
    Contract(SH + 'simhash', [Case('%d bits, %s' % (f, n), {'tokens': t_, 'f': TConst(f)}, pre=sh_pre) for f, n, t_ in ((4, 'a stream', TStream(STR)), (8, 'a list', TList(STR)), (16, 'a stream', TStream(STR)), (32, 'a list', TList(STR)), (64, 'a stream', TStream(STR)), (128, 'a list', TList(STR)), (128, 'a stream', TStream(STR)), (256, 'a stream', TStream(STR)), (512, 'a list', TList(STR)))],
             externals={'hashlib.md5': hasher('md5'), 'hashlib.sha256': hasher('sha256'), 'hashlib.sha512': hasher('sha512'), 'hasher.update': sh_update, 'hasher.hexdigest': hexdigest, 'slice:hex': sh_slice, 'builtin:int': sh_int,
                        'method:str.encode': lambda E, st, v, args, kw, node: [(st, Opaque('bytes', x=v))]},
             loops={HT: Loop([('tokens counted so far', lambda S: hist(S, S.k, z3.IntVal(0)))]), HB: Loop([('bits counted so far', lambda S: hist(S, S.ghost(('k', HT)), S.k))], force=True), HS: Loop([('bits so far', sh_bits)], hint=sh_hint, force=True)},
             post=[('a bit is set when a strict majority of the tokens has it', sh_post)]),
    Contract(SH + 'simhash_distance', [Case('', {'A': INT, 'B': INT, 'f': INT}, pre=lambda S: [S.arg('f') >= 1])], summaries={'popcount': popsum}, post=[('hamming distance over the bits', lambda S: S.result == sh_dist(S))]),
    Contract(SH + 'simhash_similarity', [Case('', {'A': INT, 'B': INT, 'f': INT}, pre=lambda S: [S.arg('f') >= 1])], summaries={'popcount': popsum}, post=[('its complement', lambda S: S.result == 1 - sh_dist(S))]),
]
LEMMAS = [split_lemma(), same_lemma()]
COMPLETE = True
ASSUMPTIONS = ['bin(x) writes the binary digits of x', 'binascii.crc32 and hashlib are functions of their input', 'bitwise operations of Python integers, given bit by bit', 'numpy arrays hold unsigned integers of the stated width and apply operators element-wise',
               'random numbers are any integers of their interval; the draw of distinct pairs is not proved to end', 'POPCOUNT_TABLE16 is written by the import only', 'SuperMinHash is not covered']
