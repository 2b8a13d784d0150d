"""The specification: what every expression node, operator and function is to give, as programs over the ghost functions of vals.
A specification is run in the same path as the code, after it (a product program): where it branches, the path is split, so that
on every path both outcomes are known and the obligation is that they agree."""
import z3
import vals as X
from vals import V, S
import core
from core import P, JavaExc, Unsupported, Infeasible
from jvm import Any, SNode, Seq, touch, touch_s, zi, conc
import seqs

def memo(f):
    """the outcome of a specification function is the same for the same arguments on a path"""
    def g(*args):
        p = P()
        if p.sbs: return f(*args)
        key = (f.__name__,) + tuple(a.get_id() if isinstance(a, z3.ExprRef) else a for a in args)
        m = p.ghost.get('memo', {})
        if key in m:
            o = m[key][0]
            if isinstance(o, SpecFail): raise SpecFail(o.msg)
            return o
        try: o = f(*args); e = None
        except SpecFail as x: o = e = x
        p.ghost['memo'] = dict(p.ghost.get('memo', {})); p.ghost['memo'][key] = (o, args)
        if e is not None: raise e
        return o
    return g

class SpecFail(JavaExc):
    def __init__(self, why): JavaExc.__init__(self, '?failure', why); self.opaque = {'': True}
class Unspecified(Exception): pass
def fail(why=''): raise SpecFail(why)

PRIO = {'STRING': 8, 'DATETIME': 7, 'DATE': 6, 'DECIMAL': 5, 'LONG': 4, 'INTEGER': 3, 'VERSION': 2, 'BOOLEAN': 1}
NUMFLAG = ['INTEGER', 'LONG', 'DECIMAL', 'VERSION']
DT = X.DTI
def tab(f, d):
    """the table f over data types at the data type term d"""
    c = conc(d)
    if c is not None: return f(X.DTS[c])
    r = f(X.DTS[-1])
    for k in X.DTS[:-1]: r = z3.If(d == DT[k], f(k), r)
    return r
def isin(d, names): return z3.Or([d == DT[n] for n in names])
def decide_dt(v):
    """the data type of v, decided"""
    touch(v)
    d = z3.simplify(X.dt(v))
    return X.DTS[P().choose([d == k for k in range(len(X.DTS))])]

# ---------------------------------------------------------------- conversion to a common type
def notnull(v): return z3.Not(X.isk('Null', v))
def conv_ok(T, v):
    n = X.nm(v)
    if T == 'DECIMAL': return X.nm_ok(v)
    if T in ('INTEGER', 'LONG'): return X.integral(v, X.in32 if T == 'INTEGER' else X.in64)
    if T in ('VERSION', 'STRING'): return notnull(v)
    if T == 'BOOLEAN': return z3.Or(X.isk('Bool', v), z3.And(notnull(v), z3.Or(X.istrue(X.tostr(v)), X.isfalse(X.tostr(v)))))
    if T == 'DATE': return z3.Or(X.isk('Date', v), z3.And(notnull(v), X.isdate(X.tostr(v))))
    if T == 'DATETIME': return z3.Or(X.isk('DT', v), z3.And(notnull(v), X.isdt(X.tostr(v))))
    raise KeyError(T)
def conv_key(T, v):
    """what values are ordered by within a type"""
    if T in ('DECIMAL', 'INTEGER', 'LONG'): return X.nm(v)
    if T == 'VERSION': return X.vrank(X.tostr(v))
    if T == 'STRING': return X.srank(X.tostr(v))
    if T == 'BOOLEAN': return z3.If(z3.If(X.isk('Bool', v), X.sel('Bool', v), X.istrue(X.tostr(v))), z3.IntVal(1), z3.IntVal(0))
    if T == 'DATE': return z3.If(X.isk('Date', v), X.sel('Date', v), X.dateval(X.tostr(v)))
    if T == 'DATETIME': return z3.If(X.isk('DT', v), X.sel('DT', v), X.dtval(X.tostr(v)))
    raise KeyError(T)
def conv_facts(T, v): 
    if T in ('VERSION', 'STRING', 'DATE', 'DATETIME', 'BOOLEAN'): touch_s(X.tostr(v))

# operators whose contract is used without its definition: the outcome is whatever the contract's definition gives on the operands
OPAQUE = [frozenset()]
def opq(name, sort, *args): return z3.Function(name, *([a.sort() for a in args] + [sort]))(*args)
class OpaqueRes:
    def __init__(self, name, args): self.name, self.args = name, args
    def holds(self, v): return z3.And(notnull(v), opq('res_' + self.name, X.B, *(list(self.args) + [v])))
ORDER = ('GREATER_THAN', 'GREATER_THAN_EQUAL', 'LESS_THAN', 'LESS_THAN_EQUAL')
EQS = ('EQUALS', 'NOT_EQUAL')
def cmp_type(op, dl, dr):
    mx = z3.If(tab(lambda n: z3.IntVal(PRIO[n]), dl) > tab(lambda n: z3.IntVal(PRIO[n]), dr), dl, dr)
    if op in EQS: return mx
    nl, nr = isin(dl, NUMFLAG), isin(dr, NUMFLAG)
    return z3.If(z3.And(nl, z3.Not(nr)), dl, z3.If(z3.And(nr, z3.Not(nl)), dr, mx))
def nonfinite(v): return z3.And(X.dt(v) == DT['DECIMAL'], z3.Not(X.nm_ok(v)))
@memo
def compare(op, l, r):
    """the truth value (a formula) of l op r, or failure; l and r are values, not null"""
    if 'op_' + op in OPAQUE[0]: return opaque_outcome(op, [l, r], True)
    touch(l)
    if P().branch(nonfinite(l)): fail('not a finite number')
    return compare_raw(op, l, r)
@memo
def compare_raw(op, l, r):
    """the same where the left operand has been checked to be a value of its kind"""
    if op == 'EQUALS' and 'eq_op' in OPAQUE[0]: return opaque_outcome('EQ', [l, r], True)
    touch(l); touch(r)
    dl, dr = X.dt(l), X.dt(r)
    if op in ORDER:
        if P().branch(z3.Or(dl == DT['BOOLEAN'], dr == DT['BOOLEAN'])): fail('ordering of booleans')
    t = cmp_type(op, dl, dr)
    T = X.DTS[P().choose([t == k for k in range(len(X.DTS))])]
    conv_facts(T, l); conv_facts(T, r)
    if not P().branch(z3.And(conv_ok(T, l), conv_ok(T, r))): fail('no common kind')
    a, b = conv_key(T, l), conv_key(T, r)
    return {'EQUALS': a == b, 'NOT_EQUAL': a != b, 'GREATER_THAN': a > b, 'GREATER_THAN_EQUAL': a >= b, 'LESS_THAN': a < b, 'LESS_THAN_EQUAL': a <= b}[op]

# ---------------------------------------------------------------- arithmetic
class Num:
    """a numeric result: its exact value; whole: an Integer or Long is required when the value is integral"""
    def __init__(self, r, whole=False, kinds=None): self.r, self.whole, self.kinds = r, whole, kinds
    def holds(self, v):
        fs = [X.isnum(v), X.nm_ok(v), X.nm(v) == self.r]
        if self.kinds: fs.append(X.isany(self.kinds, v))
        if self.whole is True: fs.append(z3.Implies(z3.And(X.isInt(self.r), X.in64(z3.ToInt(self.r))), X.isany(['Int', 'Long'], v)))
        return z3.And(fs)
class Text:
    def __init__(self, s): self.s = s
    def holds(self, v): return z3.And(X.isk('Str', v), X.sel('Str', v) == self.s)
class Value:
    """exactly this value"""
    def __init__(self, v): self.v = v
    def holds(self, v): return v == self.v
class OneOf:
    """a numeric value equal to that of this value (the kind of number is not fixed)"""
INTS = ('INTEGER', 'LONG')
NUMS = ('INTEGER', 'LONG', 'DECIMAL')
@memo
def arith(op, l, r):
    import models
    if 'ar_' + op in OPAQUE[0]:
        return opaque_outcome(op, [l] + ([] if r is None else [r]), False)
    touch(l)
    dl = X.dt(l)
    if op == 'UNARY':
        if not P().branch(z3.And(isin(dl, NUMS), X.nm_ok(l))): fail('not a number')
        x = -X.nm(l)
        if P().branch(isin(dl, INTS)):
            if not P().branch(X.in64(z3.ToInt(x))): fail('overflow')
            return Num(x, kinds=['Int', 'Long'])
        return Num(x)
    touch(r)
    dr = X.dt(r)
    if op == 'ADD':
        joins = ('STRING', 'VERSION', 'BOOLEAN')
        if P().branch(z3.Or(isin(dl, joins), isin(dr, joins))):
            if P().branch(z3.Or(isin(dl, ('DATE', 'DATETIME')), isin(dr, ('DATE', 'DATETIME')))): fail('a date')
            if P().branch(z3.Or(z3.And(dl == DT['DECIMAL'], z3.Not(X.nm_ok(l))), z3.And(dr == DT['DECIMAL'], z3.Not(X.nm_ok(r))))): fail('not a finite number')
            return Text(models.sconcat(X.tostr(l), X.tostr(r)))
    ok = INTS if op == 'MODULUS' else NUMS
    if not P().branch(z3.And(isin(dl, ok), isin(dr, ok), X.nm_ok(l), X.nm_ok(r))): fail('not a number')
    a, b = X.nm(l), X.nm(r)
    ints = P().branch(z3.And(isin(dl, INTS), isin(dr, INTS)))
    if op in ('ADD', 'SUBTRACT', 'MULTIPLY'):
        x = a + b if op == 'ADD' else a - b if op == 'SUBTRACT' else models.rmul(a, b)
        if ints:
            if op == 'MULTIPLY':
                m = models.imul(z3.ToInt(a), z3.ToInt(b)); x = z3.ToReal(m)
            if not P().branch(X.in64(z3.ToInt(x))): fail('overflow')
            return Num(x, kinds=['Int', 'Long'])
        return Num(x)
    if op == 'DIVIDE':
        if P().branch(b == 0): fail('division by zero')
        return Num(trunc(models.rdiv(a, b), 3), whole=True)
    if op == 'MODULUS':
        if P().branch(b == 0): fail('modulus by zero')
        ia, ib = intof(l, a), intof(r, b)
        return Num(z3.ToReal(zi(models.irem(ia, ib))), kinds=['Int', 'Long'])
    if op == 'EXPONENT':
        d = X.dpow(X.todbl(a), X.todbl(b))
        if ints: models.i2d(None, zi(z3.ToInt(a))); models.i2d(None, zi(z3.ToInt(b)))
        if not P().branch(X.fin(d)): fail('not finite')
        return Num(X.exact(d))
    raise KeyError(op)
def intof(v, a): return z3.If(X.isk('Int', v), X.sel('Int', v), X.sel('Long', v)) if X.kind_syn(v) is None else X.sel(X.kind_syn(v), v)
def trunc(x, k):
    import models
    return models.truncdec(x, k)

# ---------------------------------------------------------------- lookup of a field name
LK = z3.Function('lookup', X.I, S, V)          # the value a (dotted) name denotes in a map; Null when missing
def lookup_facts(m, s):
    pass
def lookup_step(m, s):
    """one step of the definition: decides how the name goes on; returns the value term (Null: missing)"""
    n = seqs.nparts(s)
    p = P()
    if p.branch(n == 0): raise Unspecified('no name')
    t0 = seqs.part_f(s, z3.IntVal(0)); touch_s(t0)
    v = X.mapget(m, t0); touch(v)
    if p.branch(n == 1): return v
    if p.branch(X.isk('Map', v)):
        t = seqs.tail(s); touch_s(t)
        return LK(X.sel('Map', v), t)
    return V.Null
def lookup_full(m, s, depth):
    """the definition unfolded, for names of bounded length"""
    n = seqs.nparts(s)
    p = P()
    if p.branch(n == 0): raise Unspecified('no name')
    k = 0
    while True:
        t = seqs.part_f(s, z3.IntVal(k)); touch_s(t)
        v = X.mapget(m, t); touch(v)
        if p.branch(n == k + 1): return v
        if not p.branch(X.isk('Map', v)): return V.Null
        m = X.sel('Map', v); k += 1
        if k > depth: raise Unsupported('long name')

# ---------------------------------------------------------------- nodes

PK = 'com/github/sidhant92/boolparser/'
NODES = {'Boolean': 'domain/logical/BooleanNode', 'Comparison': 'domain/logical/ComparisonNode', 'Range': 'domain/logical/NumericRangeNode', 'In': 'domain/logical/InNode',
         'Array': 'domain/logical/ArrayNode', 'Field': 'domain/FieldNode', 'Unary': 'domain/arithmetic/UnaryNode', 'Arithmetic': 'domain/arithmetic/ArithmeticNode', 'Function': 'domain/arithmetic/ArithmeticFunctionNode'}
SHORT = {PK + v: k for k, v in NODES.items()}
ARITHS = ('Field', 'Unary', 'Arithmetic', 'Function')          # what an ArithmeticExpressionEvaluator evaluates
Bf = z3.Function('B', X.I, X.I)          # what the boolean evaluator gives on a node: 0 false, 1 true, else failure
Aok = z3.Function('Aok', X.I, X.B); Av = z3.Function('Av', X.I, V)      # what the arithmetic evaluator gives on a node
FLDF = z3.Function('fld_FieldNode_field', X.I, V); UVAL = z3.Function('fld_UnaryNode_value', X.I, V); UDT = z3.Function('fld_UnaryNode_dataType', X.I, X.I)
KIND_OF = {'STRING': 'Str', 'INTEGER': 'Int', 'LONG': 'Long', 'DECIMAL': 'Dec', 'VERSION': 'Ver', 'BOOLEAN': 'Bool', 'DATE': 'Date', 'DATETIME': 'DT'}

class Env:
    """the call under verification: interpreter, data map and how names are looked up"""
    def __init__(self, it, mid): self.it, self.mid = it, mid; self.unfold = False
    def cls(self, n):
        c = self.it.node_class(n)
        return SHORT.get(c, c)
    def iscls(self, nid, names): return z3.Or([self.it.ncls_f(nid) == self.it.clsidx(PK + NODES[k]) for k in names if PK + NODES[k] in self.it.classes])
    def field(self, n, cls, name, desc): return self.it.node_field(n, PK + NODES[cls], name, desc)
    def enum(self, n, cls, name, ecls):
        import models
        e = self.field(n, cls, name, 'L' + PK + 'constant/' + ecls + ';')
        return None if e is None else models.text(e.f['$name'])
    def node(self, n, cls, name): return self.field(n, cls, name, 'L' + PK + 'domain/logical/Node;')
    def lookup(self, s):
        """the value a name denotes; Null when missing"""
        touch_s(s)
        if self.unfold:
            v = lookup_full(self.mid, s, self.unfold)
        else:
            v = LK(self.mid, s)
            if P().branch(seqs.nparts(s) == 0): raise Unspecified('no name')
        touch(v)
        return v
    # the evaluators on the children: what the induction hypothesis says
    def facts(self, n):
        nid = n.nid
        p = P(); k = ('nodefacts', nid.get_id())
        if k in p.touched: return
        p.touched.add(k); p.ghost.setdefault('keep', []).append(nid)
        lk = LK(self.mid, X.sel('Str', FLDF(nid)))
        isf, isu = self.iscls(nid, ['Field']), self.iscls(nid, ['Unary'])
        touch(Av(nid))
        fs = [z3.Implies(Aok(nid), z3.Not(X.isk('Null', Av(nid)))), z3.Implies(z3.Not(self.iscls(nid, ARITHS)), z3.Not(Aok(nid))), z3.Implies(self.iscls(nid, ['Arithmetic', 'Function']), z3.Or(Bf(nid) < 0, Bf(nid) > 1))]
        if not self.unfold:
            touch(lk); touch(UVAL(nid))
            b = lambda v: z3.If(X.isk('Bool', v), z3.If(X.sel('Bool', v), z3.IntVal(1), z3.IntVal(0)), z3.IntVal(2))
            fs += [z3.Implies(isf, z3.And(Aok(nid) == z3.Not(X.isk('Null', lk)), z3.Implies(Aok(nid), Av(nid) == lk), Bf(nid) == b(lk))),
                   z3.Implies(isu, z3.And(Aok(nid), Av(nid) == UVAL(nid), z3.Not(X.isk('Null', UVAL(nid))), z3.Implies(UDT(nid) == self.dtord('BOOLEAN'), Bf(nid) == b(UVAL(nid)))))]
        p.assume(*fs)
    def dtord(self, name):
        import models
        cs = self.it.enum_consts(PK + 'constant/DataType')
        return [i for i, e in enumerate(cs) if models.text(e.f['$name']) == name][0]
    def boolean(self, n):
        self.facts(n)
        b = Bf(n.nid)
        if not P().branch(z3.And(b >= 0, b <= 1)): fail('operand fails')
        return b == 1
    def arithmetic(self, n):
        self.facts(n)
        if not P().branch(Aok(n.nid)): fail('operand fails')
        touch(Av(n.nid))
        return Av(n.nid)
    def operand(self, n):
        """the value of an operand of a comparison; Null for a missing field"""
        c = self.cls(n)
        if c == 'Field': return self.lookup(self.name(n, 'Field'))
        if c == 'Unary': return self.field(n, 'Unary', 'value', 'Ljava/lang/Object;').v
        if c in ('Arithmetic', 'Function'): return self.arithmetic(n)
        return V.Bool(self.boolean(n))
    def item(self, n):
        """the value of a list element"""
        self.facts(n)
        if P().branch(self.iscls(n.nid, ARITHS)): return self.arithmetic(n)
        return V.Bool(self.boolean(n))
    def name(self, n, cls): return X.sel('Str', self.field(n, cls, 'field', 'Ljava/lang/String;').v)
    def isnull(self, n):
        if self.cls(n) != 'Field': return False
        s = self.name(n, 'Field'); touch_s(s)
        return P().branch(X.isnullword(s))
    def present(self, v): return not P().branch(X.isk('Null', v))
    def needed(self, v):
        if not self.present(v): fail('missing')
        return v

def bool_node(env, n):
    """what the boolean evaluator gives on a node, in terms of its children: a formula, or failure"""
    c = env.cls(n)
    if c == 'Boolean':
        op = env.enum(n, 'Boolean', 'operator', 'LogicalOperationType')
        l = env.boolean(env.node(n, 'Boolean', 'left'))
        if op == 'NOT': return z3.Not(l)
        if op == 'AND': return env.boolean(env.node(n, 'Boolean', 'right')) if P().branch(l) else z3.BoolVal(False)
        if op == 'OR': return z3.BoolVal(True) if P().branch(l) else env.boolean(env.node(n, 'Boolean', 'right'))
        raise KeyError(op)
    if c == 'Field':
        v = env.needed(env.lookup(env.name(n, 'Field')))
        if not P().branch(X.isk('Bool', v)): fail('not a boolean')
        return X.sel('Bool', v)
    if c == 'Unary':
        d = env.enum(n, 'Unary', 'dataType', 'DataType')
        v = env.field(n, 'Unary', 'value', 'Ljava/lang/Object;').v
        if d == 'BOOLEAN': return X.sel('Bool', v)
        raise Unspecified('a literal that is not a boolean, as a boolean operand')
    if c == 'Comparison': return comparison_node(env, n)
    if c == 'Range': return range_node(env, n)
    if c == 'In': return in_node(env, n)
    if c == 'Array': return array_node(env, n)
    if c in ('Arithmetic', 'Function'): fail('an arithmetic expression')
    raise Unsupported('node class ' + c)
def comparison_node(env, n):
    op = env.enum(n, 'Comparison', 'operator', 'Operator')
    l, r = env.node(n, 'Comparison', 'left'), env.node(n, 'Comparison', 'right')
    ln, rn = env.isnull(l), env.isnull(r)
    P().ghost['nullcheck'] = ln or rn
    if op in EQS and (ln or rn):
        there = env.present(env.operand(r if ln else l))
        return z3.BoolVal(there == (op == 'NOT_EQUAL'))
    if ln or rn:
        if env.present(env.operand(l)) and env.present(env.operand(r)): raise Unspecified('a field of the name null')
        fail('ordering against null')
    # the left operand first, then the right one: which failure comes first cannot be told
    a = env.needed(env.operand(l)); b = env.needed(env.operand(r))
    P().ghost['operands'] = (a, b)
    return compare(op, a, b)
class Lenient:
    """a boolean result where a failure is accepted too"""
    def __init__(self, f): self.f = f
def range_node(env, n):
    v = env.needed(env.lookup(env.name(n, 'Range')))
    lo = env.field(n, 'Range', 'fromValue', 'Ljava/lang/Object;').v; hi = env.field(n, 'Range', 'toValue', 'Ljava/lang/Object;').v
    touch(v); touch(lo); touch(hi)
    first = compare('GREATER_THAN_EQUAL', v, lo)
    try: second = compare('LESS_THAN_EQUAL', v, hi)
    except SpecFail:
        if P().branch(first): raise
        return Lenient(z3.BoolVal(False))
    return z3.And(first, second)

def arith_node(env, n):
    """what the arithmetic evaluator gives on a node: a description of the value, or failure"""
    c = env.cls(n)
    if c == 'Field': return Value(env.needed(env.lookup(env.name(n, 'Field'))))
    if c == 'Unary': return Value(env.field(n, 'Unary', 'value', 'Ljava/lang/Object;').v)
    if c == 'Arithmetic':
        op = env.enum(n, 'Arithmetic', 'operator', 'Operator')
        l = env.arithmetic(env.node(n, 'Arithmetic', 'left'))
        if op == 'UNARY': return arith(op, l, None)
        r = env.arithmetic(env.node(n, 'Arithmetic', 'right'))
        P().ghost['operands'] = (l, r)
        return arith(op, l, r)
    if c == 'Function': return function_node(env, n)
    fail('not an arithmetic expression')

# ---------------------------------------------------------------- lists
# A list is identified by a number; two lists with the same elements have the same one.
ELEMS = z3.Function('elems', X.I, X.I)                   # the list of the elements of a collection
FLAT = z3.Function('flat', X.I, X.I)                     # the list in which a collection is replaced by its elements
LN = z3.Function('listlen', X.I, X.I); LV = z3.Function('listitem', X.I, X.I, V)
def list_at(fid):
    """the list of that number; its elements are values, not null"""
    def at(j):
        t = LV(fid, zi(j)); touch(t); P().assume(notnull(t)); return Any(t)
    return at
def list_of(it, fid):
    p = P(); p.assume(LN(fid) >= 0, LN(fid) <= 2**31 - 1)
    ids = p.ghost.get('listids', ())
    if not any(fid.eq(o) for o in ids): p.ghost['listids'] = ids + (fid,)
    return it.symseq(LN(fid), list_at(fid), tag=('list', fid))
def seqid(q, proj=None):
    """the number of a sequence of values (None when an element is not such a value)"""
    proj = proj or (lambda x: x.v if isinstance(x, Any) else None)
    p = P()
    if q.items is not None:
        vs = [proj(x) for x in q.items]
        if any(v is None for v in vs): return None
        k = z3.Function('list%d' % len(vs), *([V] * len(vs) + [X.I]))(*vs) if vs else z3.Const('list0', X.I)
        p.assume(LN(k) == len(vs), *[LV(k, z3.IntVal(i)) == v for i, v in enumerate(vs)])
        return k
    regs = p.ghost.get('lists', [])
    def same(n, fn):
        if p.entails(zi(n) == zi(q.n)) is not True: return False
        j = z3.Const('%sext%d' % (p.label, p.subs), X.I); p.subs += 1
        res = []
        def f(sp):
            v = proj(q.at(j))
            if v is None: return False
            w = fn(j)
            return v.eq(w) or sp.entails(v == w) is True
        def setup(sp): sp.assume(j >= 0, j < zi(q.n)); sp.index(j)
        try: res = core.explore(f, setup=setup, label='%sx%d.' % (p.label, p.subs), parent=p, sub=True)
        except JavaExc: return False
        return all(r.kind == 'ret' and r.val is True for r in res)
    if q.tag is not None and q.tag[0] == 'list' and proj is None: return q.tag[1]
    for fid, n, fn in regs:
        if same(n, fn): return fid
    # a list of the data, unchanged?
    j = z3.Const('%sprobe%d' % (p.label, p.subs), X.I); p.subs += 1
    def probe(sp): return proj(q.at(j))
    def setup(sp): sp.assume(j >= 0, j < zi(q.n)); sp.index(j)
    res = core.explore(probe, setup=setup, label='%sy%d.' % (p.label, p.subs), parent=p, sub=True)
    for r in res:
        if r.kind != 'ret' or r.val is None: return None
    cand = None
    for r in res:
        v = z3.simplify(r.val)
        if z3.is_app(v) and v.decl().eq(LV) and v.arg(1).eq(j): cand = v.arg(0); break
        if z3.is_app(v) and v.decl().eq(X.celem) and v.arg(1).eq(j):
            cand = ELEMS(v.arg(0)); p.assume(LN(cand) == X.clen(v.arg(0)))
            k = z3.Const(p.label + 'k', X.I); p.forall(k, [LV(cand, k) == X.celem(v.arg(0), k)]); break
    if cand is not None and same(LN(cand), lambda t: LV(cand, t)): return cand
    fid = p.fresh('seq', X.I)
    p.ghost['lists'] = regs + [(fid, q.n, lambda t: proj(q.at(t)))]
    return fid

def node_items(env, n, cls):
    l = env.field(n, cls, 'items', 'Ljava/util/List;')
    return l.seq
def evaluated(env, n, cls, f):
    """the values of the listed elements: a sequence, or failure when one of them fails"""
    q = node_items(env, n, cls)
    if q.items is not None: return Seq(items=[Any(f(x)) for x in q.items])
    g = seqs.Gen(q.n, lambda j: Any(f(q.at(j))), 'spec')
    i, r = g.first([g.ret, g.exc])
    if i == 1: fail('an element fails')
    return Seq(n=q.n, fn=lambda t: g.at(zi(t), g.ret))
def flatten(env, q):
    """an element that is a collection stands for its elements"""
    if 'flatten' in OPAQUE[0]: return list_of(env.it, FLAT(seqid(q)))
    if q.items is None:
        def block(t):
            x = q.at(t); touch(x.v)
            return [env.it.coll_seq(x)] if P().branch(X.isk('Coll', x.v)) else [x]
        return Seq(n=P().fresh('flatlen', X.I), fn=None, flat=(q.n, block, z3.IntVal(0)))
    out = []
    for x in q.items:
        v = x.v
        touch(v)
        if P().branch(X.isk('Coll', v)):
            c = env.it.coll_seq(Any(v))
            if c.items is None: raise Unsupported('a list of unknown length')
            out += c.items
        else: out.append(x)
    return Seq(items=out)
def opaque_outcome(name, args, boolean):
    if not P().branch(opq('ok_' + name, X.B, *args)): fail('as the contract of %s says' % name)
    return opq('val_' + name, X.B, *args) if boolean else OpaqueRes(name, args)
def in_node(env, n):
    v = env.needed(env.lookup(env.name(n, 'In')))
    return in_list(v, flatten(env, evaluated(env, n, 'In', env.item)))
def in_list(v, q):
    if 'op_IN' in OPAQUE[0]: return opaque_outcome('IN', [v, seqid(q)], True)
    touch(v)
    if P().branch(nonfinite(v)):
        if P().branch(zi(q.size()) == 0): raise Unspecified('not a number, in an empty list')
        fail('not a finite number')
    return exists_equal(v, q)
def exists_equal(v, q):
    """some element is equal to v; failure when v cannot be compared with one before it"""
    if q.items is not None:
        for x in q.items:
            if P().branch(compare_raw('EQUALS', v, x.v)): return z3.BoolVal(True)
        return z3.BoolVal(False)
    g = seqs.Gen(q.n, lambda j: compare_raw('EQUALS', v, q.at(j).v), 'spec')
    t, f = seqs.boolsplit(g)
    i, r = g.first([f, t, g.exc])
    if i == 2: fail('an element that cannot be compared')
    return z3.BoolVal(i == 1)
def array_node(env, n):
    op = env.enum(n, 'Array', 'operator', 'Operator')
    v = env.needed(env.lookup(env.name(n, 'Array')))
    fl = flatten(env, evaluated(env, n, 'Array', env.item))
    p = P()
    if fl.items is not None:
        for x in fl.items[1:]:
            touch(x.v); touch(fl.items[0].v)
            if not p.branch(X.dt(fl.items[0].v) == X.dt(x.v)): fail('elements of different kinds')
    elif p.branch(fl.n > 0):
        x0 = fl.at(z3.IntVal(0)).v; d0 = X.dt(x0); touch(x0)
        def same(j):
            x = fl.at(j).v; touch(x); return X.dt(x) == d0
        g = seqs.Gen(fl.n, same, 'kinds')
        t, f = seqs.boolsplit(g)
        i, r = g.first([t, f])
        if i == 1: fail('elements of different kinds')
    return contains_list(env, op, v, fl)
def contains_list(env, op, v, fl):
    touch(v)
    if not P().branch(X.isany(['Coll', 'Arr'], v)): fail('not a collection')
    if 'op_' + op in OPAQUE[0]: return opaque_outcome(op, [v, seqid(fl)], True)
    q = env.it.coll_seq(Any(v))
    if q.items is None or fl.items is None:
        if 'in_op' not in OPAQUE[0]: raise Unsupported('a list of unknown length')
        # every element of the collection is comparable with itself or not: the search of one element is a contract of its own
        lid = seqid(q)
        g = seqs.Gen(fl.n, lambda j: opaque_outcome('INOP', [fl.at(j).v, lid], True), 'spec')
        t, f = seqs.boolsplit(g)
        go, stop = (f, t) if op == 'CONTAINS_ANY' else (t, f)
        i, r = g.first([go, stop, g.exc])
        if i == 2: fail('an element that cannot be compared')
        return z3.BoolVal((i == 1) == (op == 'CONTAINS_ANY'))
    es = [x.v for x in q.items]
    for x in fl.items:
        touch(x.v)
        if P().branch(nonfinite(x.v)): raise Unspecified('not a finite number')
    lenient = False; rows = []
    for x in fl.items:
        row = []
        for e in es:
            try: row.append(compare_raw('EQUALS', x.v, e))
            except SpecFail: lenient = True
        rows.append(z3.Or(row + [z3.BoolVal(False)]))
    f = z3.Or(rows + [z3.BoolVal(False)]) if op == 'CONTAINS_ANY' else z3.And(rows + [z3.BoolVal(True)])
    return Lenient(f) if lenient else f

class Maybe:
    """a value as described, where a failure is accepted too"""
    mayfail = True
    def __init__(self, r): self.r = r
    def holds(self, v): return self.r.holds(v)
NUMFN = ('MIN', 'MAX', 'SUM', 'AVG', 'MEAN', 'MEDIAN', 'MODE', 'INT')
def function_node(env, n):
    t = env.enum(n, 'Function', 'functionType', 'FunctionType')
    q = evaluated(env, n, 'Function', env.arithmetic)
    if t == 'LEN' and P().branch(zi(q.size()) == 1):
        v = q.at(0 if q.items is not None else z3.IntVal(0)).v
        touch(v)
        if P().branch(X.isk('Coll', v)): return Value(V.Int(X.clen(X.sel('Coll', v))))
    return function_list(t, flatten(env, q))
def function_list(t, q):
    if 'fn_' + t in OPAQUE[0]: return opaque_outcome(t, [seqid(q)], False)
    if q.items is None: return function_any(t, q)
    return function(t, [x.v for x in q.items])
def at_all(q, f, what):
    """whether f holds of every element (decided)"""
    def g(j):
        v = q.at(j).v; touch(v); return f(v)
    g = seqs.Gen(q.n, g, what)
    t, u = seqs.boolsplit(g)
    i, r = g.first([t, u, g.exc])
    if i == 2: raise r
    return i == 0
def function_any(t, q):
    """the same on a list of any length, over the ghost functions of loops"""
    import loops, models
    p = P(); n = zi(q.n); x0 = lambda: [q.at(z3.IntVal(0)).v]
    if p.branch(n == 0): fail('no arguments')
    p.index(z3.IntVal(0))
    if t == 'LEN':
        if not at_all(q, lambda v: z3.Not(nonfinite(v)), 'finite'): raise Unspecified('LEN of no number')
        if p.branch(n > 1): return Value(V.Int(n))
        return function(t, x0())
    if t in ('DAYS_ELAPSED', 'INT'):
        if not p.branch(n == 1): fail('one argument')
        return function(t, x0())
    if t not in NUMFN: raise Unspecified('function ' + t)
    if not at_all(q, lambda v: z3.And(isin(X.dt(v), NUMS), X.nm_ok(v)), 'numbers'): fail('not a number')
    L = seqid(q)
    if L is None: raise Unsupported('a list of unknown length')
    if t in ('SUM', 'AVG', 'MEAN'):
        loops.use(L, 'sum')
        if at_all(q, lambda v: isin(X.dt(v), INTS), 'ints'):
            g = seqs.Gen(n, lambda j: X.in64(z3.ToInt(loops.PSUM(L, j + 1))), 'overflow')
            a, b = seqs.boolsplit(g)
            if g.first([a, b])[0]: fail('overflow')
        s = loops.PSUM(L, n)
        return Num(s, whole=True) if t == 'SUM' else Num(trunc(models.rdiv(s, z3.ToReal(n)), 3), whole=True)
    if t in ('MIN', 'MAX'):
        loops.use(L, t.lower())
        return Num((loops.PMIN if t == 'MIN' else loops.PMAX)(L, n), whole=True)
    if t == 'MEDIAN':
        m = n / 2
        if p.branch(n % 2 == 1): return Num(loops.srt_at(L, m), whole=True)
        return Num(trunc((loops.srt_at(L, m) + loops.srt_at(L, m - 1)) / 2, 2), whole=True)
    if t == 'MODE':
        loops.use(L, 'mode'); b = loops.BEST(L, n); p.index(b)
        return Num(loops.NUM(L, b))
    raise Unsupported('a list of unknown length')
def function(t, fl):
    p = P()
    if not fl: fail('no arguments')
    for v in fl: touch(v)
    if t == 'LEN':
        for v in fl:
            if p.branch(z3.And(X.dt(v) == DT['DECIMAL'], z3.Not(X.nm_ok(v)))): raise Unspecified('LEN of no number')
        if len(fl) > 1: return Value(V.Int(z3.IntVal(len(fl))))
        if not p.branch(X.isk('Str', fl[0])): raise Unspecified('LEN of a value that is neither text nor a collection')
        return Value(V.Int(X.slen(X.sel('Str', fl[0]))))
    if t == 'DAYS_ELAPSED':
        if len(fl) != 1: fail('one argument')
        v = fl[0]
        if not p.branch(X.dt(v) == DT['DATE']): fail('no date')
        d = z3.If(X.isk('Date', v), X.sel('Date', v), X.dateval(X.sel('Str', v)))
        return Num(z3.ToReal(z3.Const('today', X.I) - d), kinds=['Int', 'Long'])
    if t not in NUMFN: raise Unspecified('function ' + t)
    if t == 'INT' and len(fl) != 1: fail('one argument')
    for v in fl:
        if not p.branch(z3.And(isin(X.dt(v), NUMS), X.nm_ok(v))): fail('not a number')
    r = [X.nm(v) for v in fl]
    if t in ('SUM', 'AVG', 'MEAN'):
        ints = p.branch(z3.And([isin(X.dt(v), INTS) for v in fl]))
        s = z3.RealVal(0)
        for x in r:
            s = s + x
            if ints and not p.branch(X.in64(z3.ToInt(s))): fail('overflow')
        return Num(s, whole=True) if t == 'SUM' else Num(trunc(s / z3.RealVal(len(r)), 3), whole=True)
    if t in ('MIN', 'MAX'):
        m = r[0]
        for x in r[1:]: m = z3.If(x < m, x, m) if t == 'MIN' else z3.If(x > m, x, m)
        return Num(m, whole=True)
    if t == 'INT': return Num(trunc(r[0], 0), whole=True)
    if t == 'MEDIAN':
        xs = []
        for x in r:
            i = len(xs)
            while i > 0 and p.branch(x < xs[i-1]): i -= 1
            xs.insert(i, x)
        k = len(xs)
        return Num(xs[k // 2] if k % 2 else trunc((xs[k // 2] + xs[k // 2 - 1]) / 2, 2), whole=True)
    if t == 'MODE':
        # scanned from the left, the value whose count first exceeds every count seen before
        best, bc, cnt = r[0], 1, {}
        seen = []
        for x in r:
            for s in seen:
                if p.branch(x == s[0]):
                    s[1] += 1
                    if s[1] > bc: best, bc = s[0], s[1]
                    break
            else: seen.append([x, 1])
        return Num(best)
