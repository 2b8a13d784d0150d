"""Obligations as jobs: entry obligations (an evaluator on a root node of one class) and contract obligations (a method body against its contract)."""
import sys, os, json, time, multiprocessing, multiprocessing.connection, traceback
sys.setrecursionlimit(20000)
import z3
import vals as X
from vals import V
import core, jvm, interp, models, seqs, spec, contracts, verify, loops
from core import P, JavaExc, Unsupported, Infeasible, STATS
from jvm import Any, JList, Seq, SNode, Obj, touch, conc, zi
from contracts import LEMMAS, Call, PK, enum_name, const, senum, BE, AE
from spec import Unspecified, SpecFail

OPFIELD = {'Comparison': ('ComparisonNode', 'operator', 'Operator'), 'Arithmetic': ('ArithmeticNode', 'operator', 'Operator'), 'Boolean': ('BooleanNode', 'operator', 'LogicalOperationType'),
           'Array': ('ArrayNode', 'operator', 'Operator'), 'Function': ('ArithmeticFunctionNode', 'functionType', 'FunctionType')}
def have_class(it, cls): return PK + spec.NODES[cls] in it.classes
def assume_root(c, k, cls, op):
    it, p = c.it, P()
    n = c.root(k)
    p.assume(it.ncls(n) == it.clsidx(PK + spec.NODES[cls]))
    if op:
        f, fn, e = OPFIELD[cls]
        cs = [enum_name(x) for x in it.enum_consts(PK + 'constant/' + e)]
        p.assume(z3.Function('fld_%s_%s' % (f, fn), X.I, X.I)(n.nid) == cs.index(op))
    return n
def assume_field_child(c, nid):
    """the node is a field whose value is present, and its name is not the null word"""
    it, p = c.it, P()
    p.assume(it.ncls_f(nid) == it.clsidx(PK + spec.NODES['Field']))
    s = X.sel('Str', spec.FLDF(nid))
    p.assume(X.isk('Str', spec.FLDF(nid)), z3.Not(X.isnullword(s)), seqs.nparts(s) >= 1)
    v = spec.LK(c.env.mid, s); touch(v); p.assume(spec.notnull(v))
    return v

def num2(a): 
    touch(a[0]); touch(a[1]); return z3.And(X.isnum(a[0]), X.isnum(a[1]))
FILTERS = {'num': lambda vs: z3.And([X.isnum(v) for v in vs if v is not None]), 'notnum': lambda vs: z3.Not(z3.And([X.isnum(v) for v in vs if v is not None])),
           'rnum': lambda vs: X.isnum(vs[-1])}
MISSING = ('missing', 'operand fails', 'an element fails')
class Total:
    """any value, or failure"""
    mayfail = True
    def holds(self, v): return spec.notnull(v)
class Free(Total):
    def holds(self, v): return z3.BoolVal(True)
def filtered(flt, spec_fn):
    """outside the filter nothing is required"""
    if not flt: return spec_fn
    if flt == 'none':          # only what holds on every path of the code: frame conditions
        def f(): raise Unspecified('frame conditions only')
        return f
    if flt == 'total':
        def f(): return Total()
        return f
    if flt == 'errors':        # an error must be a failure; else anything goes
        def f():
            try: spec_fn()
            except Unspecified: return Free()
            return Total()
        return f
    if flt == 'missing':
        def f():
            try: spec_fn()
            except SpecFail as x:
                if x.msg in MISSING: raise
            raise Unspecified('nothing is missing')
        return f
    if flt == 'nullcheck':
        def f():
            P().ghost.pop('nullcheck', None)
            try: r = spec_fn(); e = None
            except SpecFail as x: r, e = None, x
            if not P().ghost.get('nullcheck'): raise Unspecified('no test for null')
            if e: raise e
            return r
        return f
    def f():
        P().ghost.pop('operands', None)
        try: r = spec_fn(); e = None
        except SpecFail as x: r, e = None, x
        vs = P().ghost.get('operands')
        if vs is None: raise Unspecified('fails before the operands are known')
        for v in vs:
            if v is not None: touch(v)
        if not P().branch(FILTERS[flt](vs)): raise Unspecified('another kind of operand')
        if e: raise e
        return r
    return f

def entry_job(dump, job):
    """job: which, cls, op, api, filter, mode (opaque | plain), lemmas, bound, children (None | field)"""
    lem = job['lemmas']
    c = Call(dump, lem, bound=job.get('bound'))
    spec.OPAQUE[0] = frozenset(n for n in c.installed if job['mode'] == 'opaque' and (n.startswith(('op_', 'ar_', 'fn_')) or n == 'flatten')) | (frozenset(['flatten']) if 'flatten' in c.installed else frozenset())
    cls, op, which = job['cls'], job.get('op'), job['which']
    it = c.it
    if cls and not have_class(it, cls): raise Unsupported('no class for ' + cls)
    def pre(p):
        if not cls: c.root(0); return
        n = assume_root(c, 0, cls, op)
        if job.get('children') == 'field':
            if cls in ('Comparison', 'Arithmetic', 'Boolean'):
                short = spec.NODES[cls].split('/')[-1]
                for side in ('left',) if op in ('UNARY', 'NOT') else ('left', 'right'):
                    v = assume_field_child(c, z3.Function('fld_%s_%s' % (short, side), X.I, X.I)(n.nid))
            else:
                short = spec.NODES[cls].split('/')[-1]
                el = z3.Function('fld_%s_items_item' % short, X.I, X.I, X.I)
                for k in range(job.get('bound') or 0):
                    v = assume_field_child(c, el(n.nid, z3.IntVal(k)))
                    p.assume(z3.Not(X.isk('Coll', v)))
    def code():
        if job.get('direct'): return c.direct(which, job['direct'])
        try: t = c.evaluate(which, api=job.get('api'))
        except JavaExc as e: return verify.THREW
        r = contracts.try_outcome(t)
        if r[0] == 'fail': raise r[1]
        return r[1]
    def sp():
        n = c.root(0)
        return (spec.bool_node if which == 'B' else spec.arith_node)(c.env, n)
    return c, pre, code, filtered(job.get('filter'), sp), None

def compare_totality(co, so):
    return True
def lemma_compare(c, n):
    def f(co, so):
        if so[0] == 'fail' or co[0] == 'fail':
            if so[0] == 'ret' and co[0] == 'fail': return verify.agrees(co, so)
            return co[0] == so[0]
        v, s = co[1], so[1]
        if n == 'getDataType':
            if v is None: return False
            return zi(seqs.ordinal(v)) == zi(seqs.ordinal(senum(c.it, s)))
        if n.startswith('conv') or n == 'getValueFromMap':
            empty = v.f['v'] is models.NONE
            if n == 'getValueFromMap':
                t = V.Null if empty else v.f['v'].v
                return t == s
            if s is None or empty: return (s is None) == empty
            if n == 'conv_DECIMAL': return z3.And(X.isk('Dec', v.f['v'].v), X.sel('Dec', v.f['v'].v) == X.sel('Dec', s))
            return v.f['v'].v == s
        if n == 'flatten':
            if isinstance(v, JList) and s.items is None: return same_blocks(c, v.seq, s)
            if not isinstance(v, JList) or v.seq.items is None or len(v.seq.items) != len(s.items): return False
            pr = contracts.ev_value(c.it); out = []
            for x, y in zip(v.seq.items, s.items):
                t = pr(x)
                if t is None: return False
                out.append(t == y.v)
            return z3.And(out + [z3.BoolVal(True)])
        return verify.agrees(co, so)
    return f
def blocks(q):
    if q.items is not None: return z3.IntVal(len(q.items)), (lambda t: (_ for _ in ()).throw(Unsupported('blocks of different kinds')))
    if q.flat: return zi(q.flat[0]) - zi(q.flat[2]), (lambda t: q.flat[1](t + zi(q.flat[2])))
    return zi(q.n), (lambda t: [q.at(t)])
def same_blocks(c, q, s):
    """two lists that are put together block by block: the blocks agree at any index"""
    pr = contracts.ev_value(c.it)
    n1, b1 = blocks(q); n2, b2 = blocks(s)
    if q.items is not None and q.items: raise Unsupported('blocks of different kinds')
    if P().entails(n1 == n2) is not True: return n1 == n2
    if q.items == []: return True
    def elem(x, y):
        t = pr(x)
        if t is None: return False
        return P().entails(t == y.v)
    def at(j):
        x, y = b1(j), b2(j)
        if len(x) != 1 or len(y) != 1:
            if len(x) == len(y) or not x: return len(x) == len(y)
            if len(x) > 1: return False
        x, y = x[0], y[0]
        if isinstance(x, Seq) != isinstance(y, Seq):
            return False
        if not isinstance(x, Seq): return elem(x, y)
        if P().entails(zi(x.size()) == zi(y.size())) is not True: return False
        if x.items is not None or y.items is not None: return x.items == []
        g = seqs.Gen(x.n, lambda k: elem(x.at(k), y.at(k)), 'element')
        return all(o.val is True for o in g.out)
    g = seqs.Gen(n1, at, 'block')
    if any(o.kind == 'ret' and o.val is None for o in g.out): raise Unsupported('blocks: unknown')
    return all(o.val is True for o in g.out)
LEMMA_OPAQUE = {'op_IN': ('eq_op',), 'in_op': ('eq_op',), 'op_CONTAINS_ANY': ('eq_op',), 'op_CONTAINS_ALL': ('eq_op',)}
def lemma_job(dump, job):
    n = job['lemma']; L = LEMMAS[n]
    if not L.exists(dump): raise Unsupported('the method is gone')
    lem = [x for x in job['lemmas'] if x != n]
    if n in ('eq_op',): lem = [x for x in lem if not x.startswith('op_')]
    c = Call(dump, lem, bound=job.get('bound'))
    it = c.it
    spec.OPAQUE[0] = frozenset(x for x in LEMMA_OPAQUE.get(n, ()) if x in c.installed)
    if n.startswith('op_CONTAINS') and not job.get('bound'): spec.OPAQUE[0] |= frozenset(x for x in ('in_op',) if x in c.installed)
    if 'in_op' not in spec.OPAQUE[0] and n.startswith('op_CONTAINS'): it.contracts.pop(LEMMAS['in_op'].key, None)
    flt = job.get('filter')
    pre = None
    if n == 'getValueFromMap': return lookup_job(c, job)
    if n == 'flatten':
        def args(it):
            k = z3.Const('L', X.I); p = P()
            b = job.get('bound')
            if not b: return [JList(spec.list_of(it, k), mutable=False)]
            m = z3.Const('Llen', X.I); p.assume(m >= 0, m <= b)
            i = p.choose([m == x for x in range(b + 1)])
            items = []
            for x in range(i):
                v = z3.Const('item%d' % x, V); touch(v); p.assume(spec.notnull(v)); items.append(Any(v))
            return [JList(Seq(items=items), mutable=False)]
        def sp(): return spec.flatten(c.env, P().ghost['args'][0].seq)
    else:
        args = L.args
        def sp(): 
            a = P().ghost['args']
            if not L.requires(it, a) and n not in ('getDataType',): raise Unsupported('the precondition of the contract')
            return L.outcome(it, a)
    def code():
        p = P(); a = args(it); p.ghost['args'] = a
        if flt in FILTERS and n.startswith('op_') : p.ghost['operands'] = (a[3].v, contracts.pair_of(a[5]).f['l'].v)
        if flt in FILTERS and n.startswith('ar_'): p.ghost['operands'] = (a[1].v,) + ((a[3].v,) if a[3] else ())
        if flt in FILTERS: p.assume(FILTERS[flt](p.ghost['operands']))
        cc, m = it.find(*L.key)
        return it.invoke_body(cc, m, a)
    return c, pre, code, sp if flt in FILTERS else filtered(flt, sp), lemma_compare(c, n)
def lookup_job(c, job):
    """the lookup of a name, by induction over the number of its parts: the method is under its own contract where the name is shorter"""
    it = c.it; L = LEMMAS['getValueFromMap']
    s = z3.Const('name', X.S)
    bound = job.get('bound')
    def rec(it, a):
        if not L.requires(it, a): return NotImplemented
        t = X.sel('Str', a[0].v)
        if P().entails(seqs.nparts(t) < seqs.nparts(s)) is not True: return NotImplemented
        try: r = L.outcome(it, a)
        except SpecFail as e: raise contracts.opaque_failure(str(e.msg))
        c.used.add('getValueFromMap (shorter name)')
        return L.result(it, a, r)
    if not bound: it.contracts[L.key] = rec
    def code():
        p = P(); touch_s = jvm.touch_s; touch_s(s)
        if bound: p.assume(seqs.nparts(s) <= bound)
        cc, m = it.find(*L.key)
        return it.invoke_body(cc, m, [Any(V.Str(s)), Any(V.Map(z3.IntVal(1)))])
    def sp():
        return spec.lookup_full(z3.IntVal(1), s, bound) if bound else spec.lookup_step(z3.IntVal(1), s)
    return c, None, code, filtered(job.get('filter'), sp), lemma_compare(c, 'getValueFromMap')

RELATIONS = {'a < b is b > a': (('LESS_THAN', 0), ('GREATER_THAN', 1), False), 'a <= b is the negation of a > b': (('LESS_THAN_EQUAL', 0), ('GREATER_THAN', 0), True),
             'a >= b is the negation of a < b': (('GREATER_THAN_EQUAL', 0), ('LESS_THAN', 0), True), 'a != b is the negation of a = b': (('NOT_EQUAL', 0), ('EQUALS', 0), True), 'a = b is b = a': (('EQUALS', 0), ('EQUALS', 1), False),
             'exactly one of a < b, a = b, a > b': None}
def relation_job(dump, job):
    """two (or three) operators on the same operands: the methods' bodies against each other; a comparison that fails is not compared"""
    ops = RELATIONS[job['what']] 
    c = Call(dump, [n for n in job['lemmas'] if n in ('getDataType',) or n.startswith(('conv_', 'valid_'))]); it = c.it
    spec.OPAQUE[0] = frozenset()
    key = contracts.LOGKEY
    if not LEMMAS['op_EQUALS'].exists(dump): raise Unsupported('the method is gone')
    def one(op, l, r):
        cc, m = it.find(*key)
        a = [it.service, const(it, 'Operator', op), const(it, 'ContainerDataType', 'PRIMITIVE'), l, senum(it, X.dt(l.v)), JList(Seq(items=[seqs.pair(r, senum(it, X.dt(r.v)))]), mutable=False)]
        try: return ('ret', it.invoke_body(cc, m, a))
        except JavaExc as e: return ('fail', e)
    def code():
        l, r = contracts.nonnull('l'), contracts.nonnull('r')
        P().ghost.setdefault('values', []).extend([l.v, r.v])
        if ops is None:
            k = X.dt(l.v)
            if job.get('filter'): pass
            P().assume(X.dt(l.v) == X.dt(r.v), z3.Not(k == spec.DT['BOOLEAN']), *[z3.Not(X.isk(x, v.v)) for x in ('Coll', 'Map', 'Oth') for v in (l, r)])
            return [one('LESS_THAN', l, r), one('EQUALS', l, r), one('GREATER_THAN', l, r)]
        return [one(op, *((r, l) if sw else (l, r))) for op, sw in ops[:2]]
    def sp(): return None
    def cmp(co, so):
        if co[0] == 'fail': return False
        rs = co[1]
        if any(x[0] == 'fail' for x in rs): return True
        bs = [verify.bool_term(x[1]) for x in rs]
        ok = z3.And([b[0] for b in bs]); t = [b[1] for b in bs]
        if ops is None: return z3.And(ok, z3.Or(t), *[z3.Not(z3.And(t[i], t[j])) for i in range(3) for j in range(i)])
        return z3.And(ok, t[0] == (z3.Not(t[1]) if ops[2] else t[1]))
    return c, None, code, sp, cmp

import parsing
KINDS = {'entry': entry_job, 'lemma': lemma_job, 'listen': parsing.listen_job, 'root': parsing.root_job, 'parse': parsing.parse_job, 'notfield': parsing.notfield_job, 'unparsed': parsing.unparsed_job, 'relation': relation_job, 'delegate': parsing.delegate_job, 'nofield': parsing.nofield_job, 'construct': parsing.construct_job}
def run_job(dump, job):
    """one job: dict with the obligations' results"""
    STATS.queries = STATS.unknown = STATS.paths = 0; STATS.time = 0.0
    t = time.time(); res = {'job': job['name'], 'status': 'unsupported', 'detail': '', 'hints': None}
    frame = set(); c = None
    if job['kind'] == 'ghost':
        import loops
        bad = loops.prove_ghosts(); n = len(loops.ghost_lemmas())
        return dict(res, status='refuted' if any(c != 'unknown' for _, c in bad) else 'unknown' if bad else 'proved', detail='; '.join('%s: %s' % b for b in bad), paths=n, discharged=n - len(bad), used=[], queries=2 * n, solver_s=round(time.time() - t, 2), wall_s=round(time.time() - t, 2))
    if job['kind'] == 'recog':
        import recog
        st, why, n, k = recog.check(dump, dump.get('atn'), job['what'])
        cls = recog.LEX if job['what'] == 'lexer' else recog.GEN
        under = [cls.split('/')[-1] + ' (transition network)'] if job['what'] == 'lexer' else ['BooleanExpressionParser.' + r for r in recog.RULES]
        return dict(res, status=st, detail=why, paths=k, discharged=n, used=[], under=under if st == 'proved' else [], queries=0, solver_s=0.0, wall_s=round(time.time() - t, 2))
    if job['kind'] == 'first':
        try: bad = parsing.first_job(dump, job)
        except Unsupported as e: return dict(res, detail=str(e), paths=0, discharged=0, used=[], queries=0, solver_s=0.0, wall_s=round(time.time() - t, 2))
        return dict(res, status='refuted' if bad else 'proved', detail='; '.join(bad[:3]), paths=job.get('points', 0), discharged=0 if bad else job.get('points', 0), used=[], under=[], queries=0, solver_s=0.0, wall_s=round(time.time() - t, 2))
    try:
        c, pre, code, sp, cmp = KINDS[job['kind']](dump, job)
        if job.get('filter') == 'none': sp, cmp = (lambda: ('no result is looked at',)), (lambda co, so: True)
        obs, st = verify.run_product(job['name'], pre, code, sp, cmp, budget=job.get('budget', 60), frame=frame)
        worst = obs[0]
        for o in obs:
            if o.status == 'refuted': worst = o; break
            if o.status != 'proved': worst = o
        res.update(status=worst.status, detail=worst.detail, hints=worst.hints, paths=st['paths'], discharged=st['proved'], unspecified=st['unspecified'], outcomes=st['kinds'])
        if worst.status == 'proved' and st['proved'] == 0: res.update(status='vacuous', detail='no path reaches the obligation')
    except Unsupported as e: res['detail'] = str(e)
    except Exception as e: res['detail'] = 'internal error: %r %s' % (e, traceback.format_exc()[-800:])
    if c is not None:
        res['used'] = sorted(c.used); res['bounded'] = bool(c.it.bounded_used or (job.get('bound') and job['kind'] == 'lemma') or job.get('tree') == 'leaf')
        res['under'] = sorted('%s.%s' % (k[0].split('/')[-1], k[1]) for k in c.it.under if '$' not in k[1])
        res['covered'] = sorted('%s.%s%s' % k for k in c.covered); res['relied'] = sorted('%s.%s%s' % k for k in c.relied)
        res['lib'] = sorted(c.it.usedlib)
    res['frame'] = sorted(frame | (c.it.uses if c is not None else set()))
    res['queries'], res['solver_s'], res['unknowns'] = STATS.queries, round(STATS.time, 2), STATS.unknown
    res['wall_s'] = round(time.time() - t, 2)
    return res

def run_all(dump, jobs, workers=8, limit=None):
    """runs the jobs in parallel processes; results in order"""
    ctx = multiprocessing.get_context('fork')
    out = [None] * len(jobs)
    todo = list(enumerate(jobs)); todo.sort(key=lambda x: -x[1].get('weight', 1))
    live = {}
    end = time.time() + limit if limit else None
    def work(conn, job):
        try: conn.send(run_job(dump, job))
        except Exception as e: conn.send({'job': job['name'], 'status': 'unsupported', 'detail': repr(e)})
        conn.close()
    while todo or live:
        while todo and len(live) < workers and not (end and time.time() > end):
            i, job = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, job)); p.start(); b.close()
            live[i] = (p, a, time.time() + job.get('budget', 60) * 1.5 + 20)
        if end and time.time() > end:
            for i, job in todo: out[i] = {'job': job['name'], 'status': 'unsupported', 'detail': 'not started: time'}
            todo = []
        multiprocessing.connection.wait([a for p, a, d in live.values()], timeout=0.5)
        for i in list(live):
            p, a, d = live[i]
            if a.poll():
                try: out[i] = a.recv()
                except EOFError: out[i] = {'job': jobs[i]['name'], 'status': 'unsupported', 'detail': 'the process ended'}
            elif not p.is_alive(): out[i] = {'job': jobs[i]['name'], 'status': 'unsupported', 'detail': 'the process ended'}
            elif time.time() > d or (end and time.time() > end + 30):
                p.kill(); out[i] = {'job': jobs[i]['name'], 'status': 'unsupported', 'detail': 'time'}
            else: continue
            p.join(); a.close(); del live[i]
    return out

if __name__ == '__main__':
    dump = json.load(open(os.environ.get('DUMP', '/tmp/x/b/dump.json')))
    jobs = []
    for a in sys.argv[1:]:
        if a[1] == ':' :
            a, *kv = a.split(',')
            w, cls, *op = a.split(':')
            j = dict(kind='entry', name=a, which=w, cls=cls, op=op[0] if op else None, mode='opaque', lemmas=list(LEMMAS), budget=120)
        elif a[0] == '@':
            a, *kv = a[1:].split(',')
            j = dict(kind=a, name=a, budget=120, lemmas=list(LEMMAS) if a in ('notfield', 'unparsed', 'relation', 'construct', 'delegate', 'nofield') else [])
        else:
            a, *kv = a.split(',')
            j = dict(kind='lemma', name=a, lemma=a, lemmas=list(LEMMAS), budget=120)
        for x in kv:
            k, v = x.split('=', 1); j[k] = int(v) if v.isdigit() else (v.split('+') if k == 'lemmas' else v)
        jobs.append(j)
    for r in run_all(dump, jobs): print(r['job'], r['status'], r.get('wall_s'), r.get('queries'), r.get('solver_s'), 'paths', r.get('paths'), r.get('outcomes'), 'unspec', r.get('unspecified'), r.get('detail')[:900], r.get('hints'), r.get('used'), 'BOUNDED' if r.get('bounded') else '', r.get('frame'))
