"""Contracts of the methods of the library: what is assumed of a call (and proved, in a job of its own, of the body)."""
import z3
import vals as X
from vals import V, S
import core
from core import P, JavaExc, Unsupported, Infeasible
import jvm
from jvm import Interp, Any, Obj, SNode, Seq, JList, JArr, JMap, Lg, box_int, touch, touch_s, zi, zint, conc, text, parse_desc
import interp, models, seqs, spec
from seqs import SEnum
from spec import PK, Env, SpecFail

NODE = 'L' + PK + 'domain/logical/Node;'
DTD = 'L' + PK + 'constant/DataType;'
OPD = 'L' + PK + 'constant/Operator;'
CDD = 'L' + PK + 'constant/ContainerDataType;'
BE, AE = PK + 'application/BooleanExpressionEvaluator', PK + 'application/ArithmeticExpressionEvaluator'
VU = PK + 'util/ValueUtils'
OS = PK + 'operator/OperatorService'
OBJ = 'Ljava/lang/Object;'
def opaque_failure(why=''):
    e = JavaExc('java/lang/RuntimeException', why); e.opaque = {'': True}; return e

# ---------------------------------------------------------------- data types
def senum(it, d):
    """the DataType constant of a data type term over vals.DTS"""
    c = PK + 'constant/DataType'
    names = [text(e.f['$name']) for e in it.enum_consts(c)]
    if any(n not in names for n in X.DTS): raise Unsupported('data types')
    k = conc(d)
    if k is not None: return it.enum_const(c, X.DTS[k])
    if names == X.DTS: t = d
    else: t = spec.tab(lambda n: z3.IntVal(names.index(n)), d)
    return SEnum(c, t)
def dt_name_term(it, e):
    """the data type term over vals.DTS of a DataType constant"""
    names = [text(x.f['$name']) for x in it.enum_consts(PK + 'constant/DataType')]
    if not isinstance(e, SEnum): return z3.IntVal(X.DTS.index(text(e.f['$name'])))
    if names == X.DTS: return e.t
    r = z3.IntVal(0)
    for i, n in enumerate(names): r = z3.If(e.t == i, z3.IntVal(X.DTS.index(n)), r)
    return r
def dt_is(it, e, v):
    """whether e is known to be the data type of v"""
    if e is None or not isinstance(e, Obj): return False
    a, b = dt_name_term(it, e), X.dt(v)
    if a.eq(b) or z3.simplify(a == b).eq(z3.BoolVal(True)): return True
    touch(v)
    return P().entails(a == b) is True

class Lemma:
    """contract of one method. effect(it, args): what a caller may assume; spec(it, args): the same as an outcome to prove of the body"""
    def __init__(self, name, key, requires, outcome, result, args): self.name, self.key, self.requires, self.outcome, self.result, self.args = name, key, requires, outcome, result, args
    def install(self, it, used):
        lem = self
        def f(it, args):
            if not lem.requires(it, args): return NotImplemented
            used.add(lem.name)
            try: r = lem.outcome(it, args)
            except SpecFail as e: raise opaque_failure(str(e.msg))
            return lem.result(it, args, r)
        it.contracts[self.key] = f
    def exists(self, dump): return any((m['name'], m['desc']) == self.key[1:] for m in dump['classes'].get(self.key[0], {}).get('methods', []))

def isval(a): return isinstance(a, Any)
def symv(name):
    v = z3.Const(name, V); touch(v); return Any(v)
def nonnull(name):
    a = symv(name); P().assume(z3.Not(X.isk('Null', a.v))); return a

LEMMAS = {}
def lemma(l): LEMMAS[l.name] = l; return l

lemma(Lemma('getDataType', (VU, 'getDataType', '(%s)%s' % (OBJ, DTD)), lambda it, a: isval(a[0]),
            lambda it, a: (touch(a[0].v), X.dt(a[0].v))[1], lambda it, a, r: senum(it, r), lambda it: [symv('v')]))

scale_of = z3.Function('convscale', V, X.I)
def conv_term(T, v):
    n = X.nm(v)
    if T == 'DECIMAL':
        sc = z3.If(X.isk('Dec', v), X.sel('Dec', v, 1), scale_of(v)); t = V.Dec(n, sc)
    elif T == 'INTEGER': t = V.Int(z3.ToInt(n))
    elif T == 'LONG': t = V.Long(z3.ToInt(n))
    elif T == 'VERSION': t = V.Ver(X.tostr(v))
    elif T == 'STRING': t = V.Str(X.tostr(v))
    elif T == 'BOOLEAN': t = V.Bool(spec.conv_key(T, v) == 1)
    elif T == 'DATE': t = V.Date(spec.conv_key(T, v))
    elif T == 'DATETIME': t = V.DT(spec.conv_key(T, v))
    return t
def conv_requires(it, a): return isval(a[1]) and not X.is_cons(a[1].v, 'Null') and (touch(a[1].v) or P().entails(spec.notnull(a[1].v)) is True)
DTCLS = {'INTEGER': ('Integer', 'Ljava/util/Optional;'), 'LONG': ('Long', ''), 'DECIMAL': ('Decimal', ''), 'VERSION': ('Version', ''), 'STRING': ('String', ''), 'BOOLEAN': ('Boolean', ''), 'DATE': ('Date', ''), 'DATETIME': ('DateTime', '')}
def mk_conv(T):
    c = PK + 'datatype/%sDataType' % DTCLS[T][0]
    def ok(it, a):
        v = a[1].v; touch(v); spec.conv_facts(T, v); return spec.conv_ok(T, v)
    def value(it, a):
        if not P().branch(ok(it, a)): return None
        t = conv_term(T, a[1].v)
        if T in ('INTEGER', 'LONG') and P().parent is not None:      # within a loop body: by kind
            for k in ('Int', 'Long'):
                if P().branch(X.isk(k, a[1].v)): t = (V.Int if T == 'INTEGER' else V.Long)(X.sel(k, a[1].v)); break
        if X.is_cons(a[1].v, {'DECIMAL': 'Dec', 'INTEGER': 'Int', 'LONG': 'Long', 'VERSION': 'Ver', 'STRING': 'Str', 'BOOLEAN': 'Bool', 'DATE': 'Date', 'DATETIME': 'DT'}[T]): t = a[1].v
        return t
    def some(it, a, t):
        if t is None: return models.none()
        touch(t); return models.some(Any(t))
    mkargs = lambda it: [models.construct(it, c, '()V', []), nonnull('v')]
    lemma(Lemma('conv_' + T, (c, 'getValue', '(%s)Ljava/util/Optional;' % OBJ), conv_requires, value, some, mkargs))
    lemma(Lemma('valid_' + T, (c, 'isValid', '(%s)Z' % OBJ), conv_requires, ok, lambda it, a, r: r, mkargs))
for _T in X.DTS: mk_conv(_T)

def is_data_map(a): return isval(a) and X.is_cons(a.v, 'Map')
lemma(Lemma('getValueFromMap', (VU, 'getValueFromMap', '(Ljava/lang/String;Ljava/util/Map;)Ljava/util/Optional;'),
            lambda it, a: isval(a[0]) and X.is_cons(a[0].v) is not None and isval(a[1]) and strknown(a[0]) and mapknown(a[1]),
            lambda it, a: lookup_outcome(it, a), lambda it, a, r: models.none() if r is None else models.some(Any(r)), None))
def strknown(a): return X.kind_syn(a.v) == 'Str' or (X.kind_syn(a.v) is None and P().entails(X.isk('Str', a.v)) is True)
def mapknown(a): return X.kind_syn(a.v) == 'Map' or (X.kind_syn(a.v) is None and P().entails(X.isk('Map', a.v)) is True)
def lookup_outcome(it, a):
    s = X.sel('Str', a[0].v); m = X.sel('Map', a[1].v)
    touch_s(s)
    n = seqs.nparts(s)
    if P().branch(n == 0):
        # dots only: which of the two is not fixed
        if P().branch(z3.Function('noname', X.S, X.B)(s)): spec.fail('no name')
        return None
    v = spec.LK(m, s); touch(v)
    return None if P().branch(X.isk('Null', v)) else v

PAIRS = 'Ljava/util/List;'
def pair_of(l, i=0):
    if not isinstance(l, JList) or l.seq.items is None or len(l.seq.items) <= i: return None
    p = l.seq.items[i]
    return p if isinstance(p, Obj) and p.cls == 'pair' else None
def cmp_requires(it, a):
    svc, op, cd, l, ld, prs = a
    if not isinstance(op, Obj) or isinstance(op, SEnum) or not isinstance(cd, Obj) or isinstance(cd, SEnum): return False
    if text(op.f['$name']) not in spec.ORDER + spec.EQS or text(cd.f['$name']) != 'PRIMITIVE': return False
    if not isval(l) or not isinstance(prs, JList) or prs.seq.items is None or len(prs.seq.items) != 1: return False
    p = pair_of(prs)
    if p is None or not isval(p.f['l']): return False
    for v in (l.v, p.f['l'].v):
        touch(v)
        if P().entails(spec.notnull(v)) is not True: return False
    return dt_is(it, ld, l.v) and dt_is(it, p.f['r'], p.f['l'].v)
LOGKEY = (OS, 'evaluateLogicalOperator', '(%s%s%s%s%s)Z' % (OPD, CDD, OBJ, DTD, PAIRS))
def enum_name(e): return text(e.f['$name'])
LOGICAL = {}
def log_install(it, used, names):
    """one method, several contracts: by operator"""
    def f(it, args):
        for nme in names:
            lem = LEMMAS[nme]
            if lem.requires(it, args):
                used.add(nme)
                try: r = lem.outcome(it, args)
                except SpecFail as e: raise opaque_failure(str(e.msg))
                return lem.result(it, args, r)
        return NotImplemented
    return f
def service(it): return models.construct(it, OS, '()V', [])
def const(it, e, n): return it.enum_const(PK + 'constant/' + e, n)
def mk_cmp(op):
    def req(it, a): return isinstance(a[1], Obj) and not isinstance(a[1], SEnum) and enum_name(a[1]) == op and cmp_requires(it, a)
    def mkargs(it):
        l, r = nonnull('l'), nonnull('r')
        return [it.service, const(it, 'Operator', op), const(it, 'ContainerDataType', 'PRIMITIVE'), l, senum(it, X.dt(l.v)),
                JList(Seq(items=[seqs.pair(r, senum(it, X.dt(r.v)))]), mutable=False)]
    lemma(Lemma('op_' + op, LOGKEY, req, lambda it, a: spec.compare(op, a[3].v, pair_of(a[5]).f['l'].v), lambda it, a, r: r, mkargs))
for _o in spec.EQS + spec.ORDER: mk_cmp(_o)

ARKEY = (OS, 'evaluateArithmeticOperator', '(%s%s%s%s%s%s)%s' % (OBJ, DTD, OBJ, DTD, OPD, CDD, OBJ))
AOPS = ('ADD', 'SUBTRACT', 'MULTIPLY', 'DIVIDE', 'MODULUS', 'EXPONENT', 'UNARY')
def mk_arith(op):
    un = op == 'UNARY'
    def req(it, a):
        svc, l, ld, r, rd, o, cd = a
        if not isinstance(o, Obj) or isinstance(o, SEnum) or enum_name(o) != op or not isinstance(cd, Obj) or isinstance(cd, SEnum) or enum_name(cd) != 'PRIMITIVE' or not isval(l): return False
        for v in [l] + ([] if un else [r]):
            if not isval(v): return False
            touch(v.v)
            if P().entails(spec.notnull(v.v)) is not True: return False
        if un and not (r is None and rd is None): return False
        return dt_is(it, ld, l.v) and (un or dt_is(it, rd, r.v))
    def res(it, a, r):
        v = P().fresh('result', V); P().assume(r.holds(v)); touch(v); return Any(v)
    def mkargs(it):
        l, r = nonnull('l'), nonnull('r')
        return [it.service, l, senum(it, X.dt(l.v)), None if un else r, None if un else senum(it, X.dt(r.v)), const(it, 'Operator', op), const(it, 'ContainerDataType', 'PRIMITIVE')]
    lemma(Lemma('ar_' + op, ARKEY, req, lambda it, a: spec.arith(op, a[1].v, None if un else a[3].v), res, mkargs))
for _o in AOPS: mk_arith(_o)

# ---------------------------------------------------------------- lists
EN = PK + 'domain/EvaluatedNode'
LST = 'Ljava/util/List;'
def evnode(it, v): return Obj(EN, value=Any(v), dataType=senum(it, X.dt(v)))
def ev_value(it):
    """the value of an EvaluatedNode whose data type is that of its value"""
    def proj(x):
        if not isinstance(x, Obj) or x.cls != EN or not isval(x.f.get('value')): return None
        return x.f['value'].v if dt_is(it, x.f.get('dataType'), x.f['value'].v) else None
    return proj
def pair_value(it):
    def proj(x):
        if not isinstance(x, Obj) or x.cls != 'pair' or not isval(x.f['l']): return None
        return x.f['l'].v if dt_is(it, x.f['r'], x.f['l'].v) else None
    return proj
def map_seq(q, f):
    if q.items is not None: return Seq(items=[f(x) for x in q.items])
    return Seq(n=q.n, fn=lambda j: f(q.at(j)))
def evlist(it, q): return JList(map_seq(q, lambda x: evnode(it, x.v)), mutable=False)
def pairlist(it, q): return JList(map_seq(q, lambda x: seqs.pair(x, senum(it, X.dt(x.v)))), mutable=False)
def is_list(a): return isinstance(a, JList)
def stash(it, k, v): P().ghost[k] = v; return v is not None
lemma(Lemma('flatten', (VU, 'mapToEvaluatedNodes', '(%s)%s' % (LST, LST)), lambda it, a: is_list(a[0]) and stash(it, 'seqarg', spec.seqid(a[0].seq)),
            lambda it, a: spec.list_of(it, spec.FLAT(P().ghost['seqarg'])), lambda it, a, r: evlist(it, r), None))
FES = PK + 'function/FunctionEvaluatorService'
FKEY = (FES, 'evaluateArithmeticFunction', '(L%sconstant/FunctionType;%s)%s' % (PK, LST, OBJ))
FTYPES = ('MIN', 'MAX', 'SUM', 'AVG', 'MEAN', 'MEDIAN', 'MODE', 'INT', 'LEN', 'DAYS_ELAPSED')
def abstract_list(it, name='L'): return spec.list_of(it, z3.Const(name, X.I))
def mk_fn(t):
    def req(it, a):
        if not isinstance(a[1], Obj) or isinstance(a[1], SEnum) or enum_name(a[1]) != t or not is_list(a[2]): return False
        return stash(it, 'seqarg', spec.seqid(a[2].seq, ev_value(it)))
    def outcome(it, a):
        k = P().ghost['seqarg']
        if 'fn_' + t in spec.OPAQUE[0]: return spec.opaque_outcome(t, [k], False)
        return spec.function_list(t, map_seq(a[2].seq, lambda x: x.f['value']))
    def res(it, a, r):
        v = P().fresh('result', V); P().assume(r.holds(v)); touch(v); return Any(v)
    lemma(Lemma('fn_' + t, FKEY, req, outcome, res, lambda it: [it.fservice, const(it, 'FunctionType', t), evlist(it, abstract_list(it))]))
for _t in FTYPES: mk_fn(_t)
def pairs_of(it, a):
    return is_list(a) and stash(it, 'seqarg', spec.seqid(a.seq, pair_value(it)))
def nonnull_known(v): touch(v); return P().entails(spec.notnull(v)) is True
def const_is(e, n): return isinstance(e, Obj) and not isinstance(e, SEnum) and '$name' in e.f and enum_name(e) == n
def mk_listop(op, container):
    def req(it, a):
        svc, o, cd, l, ld, prs = a
        if not const_is(o, op) or not const_is(cd, container) or not isval(l) or not is_list(prs) or not nonnull_known(l.v): return False
        return dt_is(it, ld, l.v) and pairs_of(it, prs)
    def outcome(it, a):
        q = map_seq(a[5].seq, lambda x: x.f['l'])
        if op == 'IN': return spec.in_list(a[3].v, q)
        return spec.contains_list(it.env, op, a[3].v, q)
    def mkargs(it):
        l = nonnull('l')
        return [it.service, const(it, 'Operator', op), const(it, 'ContainerDataType', container), l, senum(it, X.dt(l.v)), pairlist(it, abstract_list(it))]
    lemma(Lemma('op_' + op, LOGKEY, req, outcome, lambda it, a, r: r, mkargs))
mk_listop('IN', 'PRIMITIVE'); mk_listop('CONTAINS_ANY', 'LIST'); mk_listop('CONTAINS_ALL', 'LIST')
# the operators used by other operators
def mk_inner(name, cls, op, n):
    key = (PK + 'operator/comparison/' + cls, 'evaluate', '(%s%s%s%s)Z' % (CDD, OBJ, DTD, LST))
    def req(it, a):
        me, cd, l, ld, prs = a
        if not const_is(cd, 'PRIMITIVE') or not isval(l) or not is_list(prs) or not nonnull_known(l.v) or not dt_is(it, ld, l.v): return False
        if n is None: return pairs_of(it, prs)
        if prs.seq.items is None or len(prs.seq.items) != 1: return False
        v = pair_value(it)(prs.seq.items[0])
        return v is not None and nonnull_known(v)
    def outcome(it, a):
        if op == 'EQUALS': return spec.compare_raw(op, a[2].v, a[4].seq.items[0].f['l'].v)
        if 'in_op' in spec.OPAQUE[0]: return spec.opaque_outcome('INOP', [a[2].v, P().ghost['seqarg']], True)
        return spec.exists_equal(a[2].v, map_seq(a[4].seq, lambda x: x.f['l']))
    def mkargs(it):
        c = PK + 'operator/comparison/' + cls
        l = nonnull('l')
        eq = models.construct(it, PK + 'operator/comparison/EqualsOperator', '()V', [])
        me = eq if cls == 'EqualsOperator' else models.construct(it, c, '(L%soperator/comparison/EqualsOperator;)V' % PK, [eq])
        q = Seq(items=[nonnull('r')]) if n else abstract_list(it)
        return [me, const(it, 'ContainerDataType', 'PRIMITIVE'), l, senum(it, X.dt(l.v)), pairlist(it, q)]
    lemma(Lemma(name, key, req, outcome, lambda it, a, r: r, mkargs))
mk_inner('eq_op', 'EqualsOperator', 'EQUALS', 1)
mk_inner('in_op', 'InOperator', 'IN', None)

# ---------------------------------------------------------------- well-formed trees (what the parser produces)
def tree_wf(it, n, owner, name, r):
    p = P(); short = owner.split('/')[-1]
    if short == 'UnaryNode' and name in ('value', 'dataType'):
        v = spec.UVAL(n.nid); d = spec.UDT(n.nid); touch(v)
        cs = it.enum_consts(PK + 'constant/DataType')
        p.assume(spec.notnull(v), z3.And([d >= 0, d < len(cs)]), z3.And([z3.Implies(d == i, X.isk(spec.KIND_OF[enum_name(e)], v)) for i, e in enumerate(cs)]))
    if name == 'field' and isval(r):
        p.assume(X.isk('Str', r.v)); touch_s(X.sel('Str', r.v))
    if short == 'NumericRangeNode' and name in ('fromValue', 'toValue', 'fromDataType', 'toDataType'):
        side = name[:4] if name.startswith('from') else 'to'
        v = z3.Function('fld_NumericRangeNode_%sValue' % side, X.I, V)(n.nid); d = z3.Function('fld_NumericRangeNode_%sDataType' % side, X.I, X.I)(n.nid); touch(v)
        cs = [enum_name(e) for e in it.enum_consts(PK + 'constant/DataType')]
        p.assume(z3.Or([z3.And(d == cs.index(T), X.isk(k, v)) for T, k in (('INTEGER', 'Int'), ('LONG', 'Long'), ('DECIMAL', 'Dec'))]))
    if isinstance(r, SNode):
        nullable = False
        if short == 'BooleanNode' and name == 'right': nullable = 'right'
        if short == 'ArithmeticNode' and name == 'right': nullable = 'right'
        if not nullable: p.assume(z3.Not(r.nullable))
        elif short == 'BooleanNode':
            ops = [enum_name(e) for e in it.enum_consts(PK + 'constant/LogicalOperationType')]
            p.assume(r.nullable == (z3.Function('fld_BooleanNode_operator', X.I, X.I)(n.nid) == ops.index('NOT')))
        else:
            ops = [enum_name(e) for e in it.enum_consts(PK + 'constant/Operator')]
            p.assume(r.nullable == (z3.Function('fld_ArithmeticNode_operator', X.I, X.I)(n.nid) == ops.index('UNARY')))
    if isinstance(r, Obj) or r is None:
        # operators
        ops = None
        if (short, name) == ('ComparisonNode', 'operator'): ops = spec.EQS + spec.ORDER
        if (short, name) == ('ArithmeticNode', 'operator'): ops = AOPS
        if (short, name) == ('ArrayNode', 'operator'): ops = ('CONTAINS_ANY', 'CONTAINS_ALL')
        if ops and (r is None or enum_name(r) not in ops): raise Infeasible()
        if r is None and short in ('BooleanNode', 'UnaryNode', 'ArithmeticFunctionNode', 'NumericRangeNode'): raise Infeasible()

# ---------------------------------------------------------------- the evaluators
class Call:
    """a call of one of the evaluators on the tree root, with everything it depends on"""
    def __init__(self, dump, lemmas, bound=None, data_unfold=False):
        it = self.it = Interp(dump)
        self.used, self.relied, self.covered = set(), set(), set()
        it.bound = bound
        bykey = {}
        for n in lemmas:
            l = LEMMAS[n]
            if l.exists(dump): bykey.setdefault(l.key, []).append(n)
        for k, ns in bykey.items(): it.contracts[k] = log_install(it, self.used, ns)
        self.installed = set(sum(bykey.values(), []))
        self.env = it.env = Env(it, z3.IntVal(1))
        if 'getValueFromMap' not in self.installed: self.env.unfold = (bound or 0) + 1 if bound else False
        it.node_wf = lambda n, owner, name, r: tree_wf(it, n, owner, name, r)
        self.data = Any(V.Map(z3.IntVal(1)))
        self.parsed = {}           # expression text object id -> root node
        self.parser = Obj('?parser'); self.parser.owner = None
        models.EXTRA_LIB['?parser'] = self.parse
        self.hook = lambda it, key, args: self.inner(key, args)
        it.hooks.append(self.hook)
        self.roots = {}
        self.skip = None
        saved, core.Path.cur = core.Path.cur, None
        try:
            self.be = models.construct(it, BE, '(L%sparser/BoolExpressionParser;)V' % PK, [self.parser]) if BE in it.classes else None
            self.ae = models.construct(it, AE, '(L%sparser/BoolExpressionParser;)V' % PK, [self.parser]) if AE in it.classes else None
            it.service = service(it) if OS in it.classes else None
            it.fservice = models.construct(it, FES, '()V', []) if FES in it.classes else None
        finally: core.Path.cur = saved
    def parse(self, it, recv, owner, name, desc, args):
        if name != 'parseExpression': return NotImplemented
        r = self.parsed.get(text(args[0]))
        # the default field has to reach the parser as it was given
        want = self.dflt if hasattr(self, 'dflt') else None
        got = text(args[1]) if len(args) > 1 and args[1] is not None else None
        if hasattr(self, 'dflt') and got != want: return models.try_success(SNode(z3.IntVal(77), PK + 'domain/logical/Node'))
        if r is None: return models.try_failure(opaque_failure('does not parse'))
        return models.try_success(r)
    def root(self, k=0, base='Node'):
        n = SNode(z3.IntVal(k), PK + 'domain/logical/Node')
        return n
    def inner(self, key, args):
        """the evaluators applied to a child: by the induction hypothesis"""
        if key[0] not in (BE, AE) or key is self.skip: return NotImplemented
        pts, rt = parse_desc(key[2])
        if rt not in ('Z', 'Ljava/lang/Boolean;', OBJ) or pts.count(NODE) != 1 or any(t not in (NODE, 'Ljava/util/Map;') for t in pts): return NotImplemented
        m = self.it.methods.get(key)
        a = args if len(args) == len(pts) else args[1:]
        n = a[pts.index(NODE)]
        if not isinstance(n, SNode): return NotImplemented
        if 'Ljava/util/Map;' in pts:
            d = a[pts.index('Ljava/util/Map;')]
            if not isval(d) or not d.v.eq(self.data.v): return NotImplemented
        elif True: return NotImplemented
        it = self.it
        nid = conc(n.nid)
        if nid is not None and nid in self.roots:
            if any(k == key and x is args for k, x in it.stack): return NotImplemented
            g = P().ghost.setdefault('mouts', {})
            if (key, nid) in g: return NotImplemented
            self.covered.add(key)
            g = P().ghost['mouts'] = dict(g); g[(key, nid)] = None
            try: r = it.invoke_body(key[0], m, args)
            except JavaExc as e:
                g[(key, nid)] = ('fail', e); raise
            g[(key, nid)] = ('ret', r)
            return r
        on = any(k == key for k, x in it.stack)
        cross = key[0] == AE and any(k[0] == BE for k, x in it.stack)
        if not on and not cross and not (nid is not None and nid == getattr(self, 'opaque_root', None)): return NotImplemented
        if it.isnull(n): return NotImplemented
        self.relied.add(key)
        try:
            if key[0] == AE:
                return Any(self.env.arithmetic(n))
            b = self.env.boolean(n)
            return b if rt == 'Z' else Any(V.Bool(b))
        except SpecFail as e: raise opaque_failure(str(e.msg))
    def direct(self, which, key):
        """the evaluator method with that key applied to the root, whatever its class"""
        n = self.root(0); it = self.it
        m = it.methods.get(key); pts, rt = parse_desc(key[2])
        ev = self.be if key[0] == BE else self.ae
        a = [n if t == NODE else self.data for t in pts]
        return it.invoke_body(key[0], m, a if 8 & m.get('access', 0) else [ev] + a)
    # entries
    def evaluate(self, which, k=0, api=None):
        """the public entry on the tree with root k"""
        txt = 'expression%d' % k
        it = self.it
        n = self.root(k)
        self.parsed[txt] = n; self.roots[k] = n
        def unknown(t):
            if conc(t) is None: return None
        ev = self.be if which == 'B' else self.ae
        self.dflt = 'field' if which == 'B' and api != 2 else None
        if which == 'B':
            r = it.call(BE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;Ljava/lang/String;)Lio/vavr/control/Try;', [ev, jvm.jstr(txt), self.data, jvm.jstr('field')]) if api != 2 else \
                it.call(BE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;)Lio/vavr/control/Try;', [ev, jvm.jstr(txt), self.data])
        else:
            r = it.call(AE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;)Lio/vavr/control/Try;', [ev, jvm.jstr(txt), self.data])
        return r
def try_outcome(r):
    """('fail', exc) or ('ret', value) of a Try object"""
    if not isinstance(r, Obj) or not r.cls.startswith('io/vavr/control/Try'): raise Unsupported('the result is no Try')
    return ('ret', r.f['v']) if r.cls.endswith('Success') else ('fail', r.f['e'])
