"""fog split and fog transform: every row written is as wide as the header, keeps the untouched cells, and there is one row per separated value (resp. per line) in order."""
from contracts.common import *
from pv.engine import S as SV

I, SS = z3.IntSort(), STR.sort()
LS = TList(STR)
q = z3.Int('q!')
HD, ROW = z3.Const('header', z3.ArraySort(I, SS)), z3.Const('lines', z3.ArraySort(I, LS.sort()))
W, POS, NL = z3.Ints('width column number_of_lines')
SEP, COL, TARGET, RENAME, CODE = z3.Consts('separator column_name target rename operations', SS)
PC = z3.Function('number_of_pieces', SS, I)
PV = z3.Function('piece', SS, I, SS)
NEW = z3.Const('transformed', z3.ArraySort(SS, SS))


def cell(i): return LS.arr(ROW[i])[POS]


def reader(E, st, env, node):
    a = E.read(st, E.args0raw['namespace']).fields
    E.oblige(st, 'the file and the column asked for', z3.BoolVal(env['f'] is a['file'] and env['target_header'] is a['column']), node, 'call')
    s = z3.Const('s!', SS)
    st.assume(W >= 1, 0 <= POS, POS < W, NL >= 0, forall([q], implies(z3.And(0 <= q, q < NL), LS.len(ROW[q]) == W), ROW[q]),
              forall([s], z3.And(PC(s) >= 1, implies(TY.slen(s) == 0, z3.And(PC(s) == 1, s == E.lift(''), PV(s, 0) == s))), PC(s), TY.slen(s)))
    return [(st, Tup([E.new_cell(st, Lst(W, HD, STR)), POS, Gen(n=NL, arr=ROW, t=LS, bag=None)]))]


def pieces(E, st, s, args, kw, node):
    if kw or len(args) != 1: raise Stale('split')
    E.oblige(st, 'split at the separator', E.lift(args[0]) == SEP, node, 'call')
    t = E.lift(s)
    arr = E.fresh('pieces', z3.ArraySort(I, SS))
    st.assume(forall([q], arr[q] == PV(t, q), arr[q]))
    return [(st, E.new_cell(st, Lst(PC(t), arr, STR)))]


def writer(E, st, args, kw, node):
    a = E.read(st, E.args0raw['namespace']).fields
    if kw: raise Stale('another dialect')
    E.oblige(st, 'written to the output', z3.BoolVal(args[0] is a['output']), node, 'call')
    return [(st, Opaque('writer'))]


def write(split):
    def f(E, st, args, kw, node):
        a = E.read(st, E.args0raw['namespace']).fields
        target, after = a['target_column'] is not None, a.get('after') is True
        row = E.read(st, args[0])
        if row.kind != 'list' or row.t is None or repr(row.t) != repr(STR): raise Stale('row')
        wide = W + 1 if target else W
        hdr, i, j = st.ghost['hdr'], st.ghost['line'], st.ghost['piece']
        new = (POS + 1 if after else W) if target else POS                   # where the new value goes
        old = (lambda p: z3.If(p > new, p - 1, p)) if target else (lambda p: p)
        kept = lambda src: z3.And(row.n == wide, forall([q], implies(z3.And(0 <= q, q < wide, q != new), row.arr[q] == src[old(q)]), row.arr[q]))
        head = HD if a.get('rename_column') is None else z3.Store(HD, POS, RENAME)
        name = TARGET if target else head[POS]
        value = PV(cell(i), j) if split else NEW[cell(i)]
        E.oblige(st, 'the header comes first', z3.Implies(hdr == 0, z3.And(kept(head), row.arr[new] == name)), node, 'call')
        E.oblige(st, 'a row as wide as the header that keeps the other cells', z3.Implies(hdr == 1, z3.And(i < NL, kept(LS.arr(ROW[i])))), node, 'call')
        E.oblige(st, 'the next value of the line', z3.Implies(hdr == 1, row.arr[new] == value), node, 'call')
        last = j + 1 >= PC(cell(i)) if split else z3.BoolVal(True)
        st.ghost = dict(st.ghost)
        st.ghost['hdr'] = z3.IntVal(1)
        st.ghost['line'] = z3.If(z3.And(hdr == 1, last), i + 1, i)
        st.ghost['piece'] = z3.If(hdr == 0, j, z3.If(last, 0, j + 1))
        return [(st, None)]
    return f


def g(S): return S.ghost('hdr'), S.ghost('line'), S.ghost('piece')


def lines(S):
    h, i, j = g(S)
    return [h == 1, i == S.k, j == 0]


def split_inner(S):
    h, i, j = g(S)
    k = S.loop(('split_action', 0)).k
    more = S.k < PC(cell(k))
    target = S._E.read(S._st, S._E.args0raw['namespace']).fields['target_column'] is not None
    l = S.line
    return [h == 1, i == z3.If(more, k, k + 1), j == z3.If(more, S.k, 0), l.n == W, forall([q], implies(z3.And(0 <= q, q < W, z3.BoolVal(True) if target else q != POS), l.arr[q] == LS.arr(ROW[k])[q]), l.arr[q])]


def done(S):
    h, i, j = g(S)
    return [h == 1, i == NL, j == 0]


def namespace(**f):
    def mk(E, st):
        return E.new_cell(st, Obj('Namespace', dict({'file': Opaque('file'), 'output': Opaque('output'), 'column': COL}, **f)))
    return mk


GH = {'hdr': z3.IntVal(0), 'line': z3.IntVal(0), 'piece': z3.IntVal(0)}
SPLIT = [Case('%s, %s' % ('a new column' if t is not None else 'in place', 'renamed' if r is not None else 'same name'), {'namespace': namespace(separator=SEP, target_column=t, rename_column=r)}) for t in (None, TARGET) for r in (None, RENAME)]


def fn_of(name): return z3.Const('op_' + name, z3.ArraySort(SS, SS))


def chain(ops):
    """what the operations make of a cell, one after the other"""
    s = z3.Const('s!', SS)
    v = s
    for o in ops: v = fn_of(o)[v]
    return forall([s], NEW[s] == v, NEW[s])


def tr_setup(ops):
    return lambda S: [chain(ops)] if ops else []


def op(name):
    return lambda E, st, args, kw, node: [(st, fn_of(name)[E.lift(args[0])])]


def sop(name):
    return lambda E, st, s, args, kw, node: [(st, fn_of(name)[E.lift(s)])] if not args and not kw else None


def evaluate(E, st, args, kw, node):
    E.oblige(st, 'the expression given is evaluated', E.lift(args[0]) == CODE, node, 'call')
    env = args[2] if len(args) > 2 else kw.get('locals')
    d = E.read(st, env)
    raise Stale('eval')


TRANSFORM = [Case('%s, %s' % (','.join(ops), where), {'namespace': namespace(eval=False, operations=','.join(ops), target_column=t, after=aft)}, pre=tr_setup(ops))
             for ops in (['lower'], ['strip', 'upper'], ['unidecode', 'squeeze', 'lower']) for where, t, aft in (('in place', None, False), ('a last column', TARGET, False), ('a column after', TARGET, True))]
CONTRACTS = [
    Contract('fog/cli/split.py:split_action', SPLIT, ghost=GH, externals={'csv.writer': writer, 'writer.writerow': write(True), 'method:str.split': pieces}, summaries={'custom_reader': reader},
             loops={('split_action', 0): Loop([('lines written', lines)]), ('split_action', 1): Loop([('values written', split_inner)])}, post=[('every line is written', done)]),
    Contract('fog/cli/transform.py:transform_action', TRANSFORM, ghost=GH, externals={'csv.writer': writer, 'writer.writerow': write(False), 'unidecode.unidecode': op('unidecode'), 'method:str.lower': sop('lower'), 'method:str.upper': sop('upper'), 'method:str.strip': sop('strip')},
             summaries={'custom_reader': reader, 'squeeze': lambda E, st, env, node: [(st, fn_of('squeeze')[E.lift(env['string'])])]}, loops={('transform_action', 0): Loop([('lines written', lines)])}, post=[('every line is written', done)]),
]
COMPLETE = False
BOUNDED = ['the TOML report (string formatting and escaping)', 'fog transform with --eval']
ASSUMPTIONS = ['csv.reader yields the cells of each line, all lines as wide as the header; csv.writer writes the cells it is given', 's.split(sep) gives at least one piece, and the empty string as the only piece of the empty string', 'the operations are functions of their input (unidecode, str methods, fingerprint and squeeze: C24, C25)']
