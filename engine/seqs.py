"""Sequences, collections, streams and maps of the Java library.  Sequences of known length are handled element by element; of
sequences of unknown length every operation is decided at a generic index (see Gen)."""
import re, z3
import vals as X
from vals import V, S
import core
from core import P, JavaExc, Unsupported, Infeasible
import jvm
from jvm import (Lg, Dv, Any, Obj, JClass, Lam, PyLam, SNode, Seq, JList, JArr, JMap, Stream, box_int, zint, zi, conc, norm, jstr, text, touch, touch_s, kind, parse_desc)
def M():
    import models
    return models
def throw(c, msg=''): raise JavaExc(c, jstr(msg))

# ---------------------------------------------------------------- symbolic enum constants
class SEnum(Obj):
    """some constant of an enum of the library under verification, given by its ordinal"""
    def __init__(self, cls, t): Obj.__init__(self, cls); self.t = t
def resolve(it, e):
    if not isinstance(e, SEnum): return e
    cs = it.enum_consts(e.cls)
    c = conc(e.t)
    if c is not None: return cs[c]
    return cs[P().choose([e.t == k for k in range(len(cs))])]
def ordinal(e): return e.t if isinstance(e, SEnum) else e.f['$ordinal']
def enum_eq(it, a, b):
    if not isinstance(a, Obj) or not isinstance(b, Obj) or a.cls.split('$')[0] != b.cls.split('$')[0]: return False
    return zi(ordinal(a)) == zi(ordinal(b))
def enum_term(it, e):
    return zi(ordinal(e))

# ---------------------------------------------------------------- substitution of an index in a value
class under_sub:
    def __init__(self, pairs): self.pairs = pairs
    def __enter__(self): P().sbs.append(self.pairs)
    def __exit__(self, *a): P().sbs.pop()
def subst_seq(s, pairs, own):
    if s.items is not None: return Seq(items=[subst(x, pairs, own) for x in s.items], tag=subst_tag(s.tag, pairs))
    fn = s.fn
    def at(t):
        mark = Obj.n
        with under_sub(pairs): r = fn(t)
        return subst(r, pairs, lambda x: x.id > mark or own(x))       # an object that fn makes stands at the generic index too
    return Seq(n=z3.substitute(s.n, *pairs), fn=at, tag=subst_tag(s.tag, pairs))
def subst_tag(t, pairs):
    if t is None: return None
    return tuple(z3.substitute(x, *pairs) if isinstance(x, z3.ExprRef) else x for x in t)
def subst(x, pairs, own, memo=None):
    if isinstance(x, z3.ExprRef): return z3.substitute(x, *pairs)
    if isinstance(x, Any): return Any(z3.substitute(x.v, *pairs))
    if isinstance(x, Lg): return Lg(subst(x.t, pairs, own))
    if isinstance(x, Dv): return Dv(subst(x.t, pairs, own), x.flt)
    if isinstance(x, SNode):
        y = SNode(z3.substitute(x.nid, *pairs), x.base)
        if getattr(x, 'nullable', None) is not None: y.nullable = z3.substitute(x.nullable, *pairs)
        return y
    if isinstance(x, Seq): return subst_seq(x, pairs, own)
    if isinstance(x, SEnum): return SEnum(x.cls, subst(x.t, pairs, own))
    if isinstance(x, Obj):
        if not own(x): return x
        memo = {} if memo is None else memo
        if x.id in memo: return memo[x.id]
        y = object.__new__(type(x)); y.__dict__.update(x.__dict__); y.f = {}
        Obj.n += 1; y.id = Obj.n; y.owner = P(); memo[x.id] = y
        for k, v in x.f.items(): y.f[k] = subst(v, pairs, own, memo) if not callable(v) else v
        if isinstance(x, (JList, JArr, Stream)): y.seq = subst_seq(x.seq, pairs, own)
        if isinstance(x, Iter): y.k = subst(x.k, pairs, own); y.seq = subst_seq(x.seq, pairs, own)
        if isinstance(x, JMap) and hasattr(x, 'j'): y.j = subst(x.j, pairs, own)
        if isinstance(x, JMap): y.d = [[subst(k, pairs, own, memo), subst(v, pairs, own, memo)] for k, v in x.d]
        return y
    if isinstance(x, Lam):
        y = Lam(x.h, [subst(c, pairs, own) for c in x.captured], x.inst, x.iface); return y
    if isinstance(x, tuple): return tuple(subst(c, pairs, own) for c in x)
    if isinstance(x, list): return [subst(c, pairs, own) for c in x]
    if isinstance(x, PyLam): raise Unsupported('function object made at a generic index')
    return x

class Outcome: pass
class Gen:
    """what f does at a generic index lo <= j < n: for each path its condition (a formula in j) and its result"""
    def __init__(self, n, f, what='g', lo=None):
        p = P()
        p.subs += 1
        label = '%s%s%d.' % (p.label, what, p.subs)
        j = z3.Const(label + 'j', X.I)
        self.j, self.n = j, n
        self.lo = lo = z3.IntVal(0) if lo is None else zi(lo)
        self.out = []
        def setup(q):
            q.assume(j >= lo, j >= 0, j < n); q.index(j)
        base = len(p.events)
        res = core.explore(lambda q: f(j), setup=setup, label=label, parent=p, sub=True)
        for r in res:
            q = r.path
            sk = []
            for c in q.freshes:
                F = z3.Function(c.decl().name() + '@', X.I, c.sort()); sk.append((c, F(j)))
            o = Outcome(); o.kind, o.val = r.kind, r.val
            o.fs = [z3.substitute(g, *sk) if sk else g for g in q.pc]
            o.foralls = [(k, [z3.substitute(g, *sk) if sk else g for g in fs]) for k, fs in q.foralls[q.nforalls0:]]
            o.sk, o.path = sk, q
            o.appended = q.appended
            for e in q.events: p.events.append(e)
            self.out.append(o)
        self.ret = [o for o in self.out if o.kind == 'ret']; self.exc = [o for o in self.out if o.kind == 'exc']
    def cond(self, o, t):
        return z3.And([z3.substitute(g, (self.j, t)) for g in o.fs] + [z3.BoolVal(True)])
    def any_of(self, outs, t):
        return z3.Or([self.cond(o, t) for o in outs] + [z3.BoolVal(False)])
    def take(self, o, t):
        """path o is the one taken at t: its facts and its result"""
        p = P()
        pairs = o.sk_t(self.j, t) if False else [(c, z3.substitute(F, (self.j, t))) for c, F in o.sk] + [(self.j, t)]
        for k, fs in o.foralls: p.forall(k, [z3.substitute(g, (self.j, t)) for g in fs])
        path = o.path
        own = lambda x: x.owner is path or within(x.owner, path)
        if o.kind == 'exc':
            e = o.val
            n = JavaExc(e.cls, subst(e.msg, pairs, own) if isinstance(e.msg, Any) else e.msg)
            if getattr(e, 'opaque', None) is not None: n.opaque = dict(e.opaque)
            return n
        return subst(o.val, pairs, own)
    def all_are(self, outs):
        """assumes that at every index one of the given paths is taken"""
        k = self.j
        P().forall(k, [z3.Implies(z3.And(k >= self.lo, k < self.n), self.any_of(outs, k))])
        P().index(self.lo)
    def before(self, w, outs):
        k = self.j
        P().forall(k, [z3.Implies(z3.And(k >= self.lo, k < w), self.any_of(outs, k))])
    def at(self, t, outs):
        """the result at t when one of the given paths is taken there"""
        P().index(t)
        o = outs[P().choose([self.cond(o, t) for o in outs])] if len(outs) > 1 else outs[0]
        if len(outs) == 1: P().assume(self.cond(o, t))
        return self.take(o, t)
    def first(self, groups):
        """the paths are divided into groups, the first of which goes on to the next index. Decides where the iteration stops:
        returns (group, result) or (0, None) when it never does"""
        p = P()
        if not self.out: return 0, None
        go = groups[0]
        stops = [(g, o) for g, outs in enumerate(groups) if g for o in outs]
        if not stops: self.all_are(go); return 0, None
        w = p.fresh('w', X.I)
        b = p.fresh('stops', X.B)
        if not p.fork(b):
            self.all_are(go); return 0, None
        p.assume(w >= self.lo, w >= 0, w < self.n); p.index(w); p.ghost['w'] = w
        self.before(w, go)
        if len(stops) > 1:
            i = p.choose([self.cond(o, w) for g, o in stops])
        else:
            i = 0; p.assume(self.cond(stops[0][1], w))
        if core.check(p.solver, ms=1000) == z3.unsat: raise Infeasible()
        return stops[i][0], self.take(stops[i][1], w)
def within(q, path):
    while q is not None:
        if q is path: return True
        q = q.parent
    return False

def boolsplit(gen):
    """outcomes of a predicate divided by the value"""
    t, f = [], []
    for o in gen.ret:
        b = o.val
        b = M().zbool(b) if not isinstance(b, Any) else X.sel('Bool', b.v)
        if o.sk: b = z3.substitute(b, *o.sk)
        b = z3.simplify(b)
        for c, l in ((b, t), (z3.simplify(z3.Not(b)), f)):
            if z3.is_false(c): continue
            n = Outcome(); n.__dict__.update(o.__dict__); n.fs = o.fs + ([c] if not z3.is_true(c) else []); l.append(n)
    return t, f

# ---------------------------------------------------------------- sequences
def copy_seq(s): return Seq(items=list(s.items)) if s.items is not None else s
def concat_seq(it, a, b):
    if a.items is not None and b.items is not None: return Seq(items=a.items + b.items)
    if a.items == []: return b
    if b.items == []: return a
    n = zi(a.size())
    def at(j):
        j = zi(j)
        return a.at(j) if P().branch(j < n) else b.at(j - n)
    return Seq(n=norm(n + zi(b.size())), fn=at)
def items_of(s):
    if s.items is None: raise Unsupported('a sequence of unknown length')
    return s.items
def dedupe(it, items):
    out = []
    for x in items:
        if not any(M().br(M().zbool(M().null_equals(it, y, x))) for y in out): out.append(x)
    return out
def tree_keys(it, o, xs):
    """TreeSet and TreeMap compare their keys: only for keys that compareTo tells apart as equals does"""
    if not o.cls.startswith('java/util/Tree'): return
    for x in xs:
        if isinstance(x, Any):
            touch(x.v)
            if P().entails(z3.Or([X.isk(k, x.v) for k in ('Bool', 'Int', 'Long', 'Str', 'Date', 'DT')])) is True: continue
        elif isinstance(x, SEnum) or isinstance(x, Obj) and '$ordinal' in x.f: continue
        raise Unsupported('keys of a ' + o.cls)
def contains(it, s, x):
    if s.items is not None:
        if isinstance(x, SEnum) and all(isinstance(y, Obj) for y in s.items): return z3.Or([z3.BoolVal(False)] + [enum_eq(it, x, y) for y in s.items])
        for y in s.items:
            if M().br(M().zbool(M().null_equals(it, x, y))): return True
        return False
    g = Gen(s.n, lambda j: M().zbool(M().null_equals(it, x, s.at(j))), 'contains')
    t, f = boolsplit(g)
    i, r = g.first([f, t, g.exc])
    if i == 2: raise r
    return i == 1

class Iter(Obj):
    def __init__(self, seq): Obj.__init__(self, 'java/util/Iterator'); self.seq, self.k = seq, 0
    def call(self, it, name):
        s = self.seq
        if P() is not None and name in ('next', 'nextInt') and self.owner is not P(): raise Unsupported('a lambda or loop body advances an iterator of the enclosing call')
        if s.items is None:
            if s.fn is None: raise Unsupported('iteration over a sequence of unknown length')
            c = zi(self.k) < zi(s.n)
            if name == 'hasNext': return z3.simplify(c)
            if name in ('next', 'nextInt'):
                if not M().br(c): throw('java/util/NoSuchElementException')
                k = self.k; self.k = norm(zi(k) + 1)
                P().index(zi(k))
                return s.at(zi(k))
        elif name == 'hasNext': return int(self.k < len(s.items))
        if name in ('next', 'nextInt'):
            if self.k >= len(s.items): throw('java/util/NoSuchElementException')
            k = self.k; self.k += 1
            if P() is not None and self.owner is not P(): P().journal.append(lambda: setattr(self, 'k', k))
            return s.items[k]
        raise Unsupported('Iterator.' + name)

nparts_f = z3.Function('nparts', S, X.I); part_f = z3.Function('part', S, X.I, S); tail_f = z3.Function('tailparts', S, S)
def nparts(s):
    p = P(); n = nparts_f(s)
    p.assume(n >= 0, z3.Implies(n == 1, part_f(s, z3.IntVal(0)) == s))
    return n
def split(it, s, args):
    r = text(args[0])
    c = X.content(s)
    if c is not None and r is not None and len(args) == 1:
        q = re.sub(r'\\(.)', r'\1', r) if re.fullmatch(r'(\\.|[^\\.\[\]()*+?^$|{}])+', r) else None
        if q is not None:
            parts = c.split(q)
            while len(parts) > 1 and parts[-1] == '': parts.pop()
            if parts == [''] and c != '': parts = []
            return JArr(Seq(items=[jstr(x) for x in parts]), 'Ljava/lang/String;')
    if r in ('\\.', '[.]') and (len(args) == 1 or conc(args[1]) == 0):
        def at(j):
            t = part_f(s, zi(j)); touch_s(t); return Any(V.Str(t))
        q = it.symseq(nparts(s), at, tag=('parts', s))
        return JArr(q, 'Ljava/lang/String;')
    raise Unsupported('String.split')
def tail(s):
    """the parts after the first joined again"""
    t = tail_f(s)
    n = nparts(s)
    P().assume(z3.Implies(n >= 2, nparts(t) == n - 1))
    for i in range(4): P().assume(z3.Implies(n >= 2 + i, part_f(t, z3.IntVal(i)) == part_f(s, z3.IntVal(i + 1))))
    return t
def join_texts(it, sep, seq):
    """String.join of strings"""
    if seq.tag and seq.tag[0] == 'parts' and len(seq.tag) == 3 and sep == '.':
        s, k = seq.tag[1], seq.tag[2]
        t = s
        for _ in range(k): t = tail(t)
        return Any(V.Str(t)) if k else Any(V.Str(s))
    if seq.items is None: raise Unsupported('joining a sequence of unknown length')
    m = M()
    if not seq.items: return jstr('')
    r = None
    for x in seq.items:
        x = m.value_string(it, x); t = X.sel('Str', x.v)
        r = t if r is None else m.sconcat(m.sconcat(r, X.sconst(sep)), t)
    return Any(V.Str(r))
def join(it, args):
    sep = text(args[0])
    if sep is None: raise Unsupported('String.join')
    return join_texts(it, sep, M().seq_of(it, args[1]))

# ---------------------------------------------------------------- streams
def pull(it, s):
    g = iter(items_of(s.seq))
    for op in s.ops: g = stage(it, op, g)
    return g
def stage(it, op, g):
    m = M()
    k = op[0]
    if k == 'map':
        for x in g: yield op[1](x)
    elif k == 'filter':
        for x in g:
            if m.br(m.zbool(op[1](x))): yield x
    elif k == 'peek':
        for x in g: op[1](x); yield x
    elif k == 'flatMap':
        for x in g:
            r = op[1](x)
            if it.isnull(r): continue
            for y in pull(it, r): yield y
    elif k == 'distinct':
        seen = []
        for x in g:
            if not any(m.br(m.zbool(m.null_equals(it, y, x))) for y in seen): seen.append(x); yield x
    elif k == 'sorted':
        for x in sort_items(it, list(g), op[1]): yield x
    elif k == 'skip':
        for i, x in enumerate(g):
            if i >= op[1]: yield x
    elif k == 'limit':
        if op[1] > 0:
            for i, x in enumerate(g):
                yield x
                if i + 1 >= op[1]: break
    elif k == 'takeWhile':
        for x in g:
            if not m.br(m.zbool(op[1](x))): break
            yield x
    elif k == 'dropWhile':
        on = False
        for x in g:
            if not on and m.br(m.zbool(op[1](x))): continue
            on = True; yield x
    else: raise Unsupported('stream ' + k)
def sort_items(it, items, cmp):
    m = M()
    out = []
    for x in items:
        i = len(out)
        while i > 0 and m.br(zi(cmp(x, out[i-1])) < 0): i -= 1
        out.insert(i, x)
    return out
def cmp_fn(it, c):
    m = M()
    if c is None or it.isnull(c): return lambda a, b: zint(m.compare_values(it, a, b))
    return lambda a, b: zint(it.apply(c, a, b))
def prim_cmp(a, b):
    import interp
    return interp.cmp3(zint(a), zint(b))

def elem_fn(it, s):
    """the element of a stream of unknown length at an index, with what the stages do to it; only elementwise stages"""
    def at(j):
        x = s.seq.at(j)
        for op in s.ops:
            if op[0] == 'map': x = op[1](x)
            elif op[0] == 'peek': op[1](x)
            elif op[0] == 'filter':
                if not M().br(M().zbool(op[1](x))): return SKIP
            else: raise Unsupported('%s on a stream of unknown length' % op[0])
        return x
    return at
class _S: pass
SKIP = _S()

def forced(it, s, what='collect'):
    """all elements: a Seq (the stream is run to its end)"""
    if s.seq.items is not None: return Seq(items=list(pull(it, s)), tag=s.seq.tag if not s.ops else None)
    if not s.ops: return s.seq
    # parts after the first
    if s.seq.tag and s.seq.tag[0] == 'parts' and all(o[0] == 'skip' for o in s.ops):
        k = sum(o[1] for o in s.ops) + (s.seq.tag[2] if len(s.seq.tag) > 2 else 0)
        st = s.seq.tag[1]
        n = P()
        if not P().branch(s.seq.n >= k): return Seq(items=[])
        return Seq(n=s.seq.n - k, fn=lambda j: s.seq.at(zi(j) + k), tag=('parts', st, k))
    ops = s.ops
    if ops[-1][0] == 'filter' or any(o[0] == 'filter' for o in ops):
        g = Gen(s.seq.n, elem_fn(it, s), what)
        keep = [o for o in g.ret if o.val is not SKIP]; drop = [o for o in g.ret if o.val is SKIP]
        i, r = g.first([g.ret, g.exc])
        if i == 1: raise r
        if not drop or not P().branch(P().fresh('dropped', X.B)):
            g.all_are(keep); return Seq(n=s.seq.n, fn=lambda t: g.at(zi(t), keep))
        raise Unsupported('a filtered stream of unknown length')
    flat = [k for k, o in enumerate(ops) if o[0] == 'flatMap']
    if flat:
        k = flat[0]
        pre = forced(it, Stream(s.seq, s.prim, ops[:k]), what) if k else s.seq
        def body(j):
            r = ops[k][1](pre.at(j))
            return None if it.isnull(r) else forced(it, r)
        g = Gen(pre.n, body, what)
        i, r = g.first([g.ret, g.exc])
        if i == 1: raise r
        def block(t):
            q = g.at(zi(t), g.ret)
            return [] if q is None else (list(q.items) if q.items is not None else [q])
        return forced(it, Stream(flat_seq(it, pre.n, block), s.prim, ops[k+1:]), what)
    if any(o[0] in ('sorted', 'distinct', 'skip', 'limit') for o in ops):
        k = next(k for k, o in enumerate(ops) if o[0] in ('sorted', 'distinct', 'skip', 'limit'))
        pre = forced(it, Stream(s.seq, s.prim, ops[:k]), what)
        o = ops[k]
        if o[0] == 'sorted': nxt = sorted_seq(it, pre, o[2])
        elif o[0] == 'skip' and not k:
            if not P().branch(pre.n >= o[1]): nxt = Seq(items=[])
            else: nxt = Seq(n=pre.n - o[1], fn=lambda j: pre.at(zi(j) + o[1]))
        else: raise Unsupported('%s on a stream of unknown length' % o[0])
        return forced(it, Stream(nxt, s.prim, ops[k+1:]), what)
    g = Gen(s.seq.n, elem_fn(it, s), what)
    i, r = g.first([g.ret, g.exc])
    if i == 1: raise r
    return Seq(n=s.seq.n, fn=lambda t: g.at(zi(t), g.ret))

SORTED = []      # extension: sorting of sequences of unknown length
def sorted_seq(it, seq, natural):
    for f in SORTED:
        r = f(it, seq, natural)
        if r is not None: return r
    raise Unsupported('sorting a sequence of unknown length')
REDUCE = []      # extension: folds over sequences of unknown length

def par(s, name): s.par = name == 'parallelStream'; return s
def stream_call(it, s, name, desc, args):
    m = M()
    def mk(op, prim='same'): return Stream(s.seq, s.prim if prim == 'same' else prim, s.ops + [op])
    ap = lambda f: (lambda *x: it.apply(f, *x))
    symb = s.seq.items is None
    if name in ('map', 'mapToObj', 'mapToInt', 'mapToLong', 'mapToDouble'):
        if it.isnull(args[0]): it.npe('map')
        prim = {'map': s.prim, 'mapToObj': None, 'mapToInt': 'I', 'mapToLong': 'J', 'mapToDouble': 'D'}[name]
        return mk(('map', ap(args[0])), prim)
    if name == 'filter': return mk(('filter', ap(args[0])))
    if name == 'peek': return mk(('peek', ap(args[0])))
    if name == 'flatMap': return mk(('flatMap', ap(args[0])))
    if name == 'distinct': return mk(('distinct',))
    if name == 'sorted':
        c = args[0] if args else None
        f = prim_cmp if s.prim in ('I', 'J') else cmp_fn(it, c)
        return mk(('sorted', f, c is None or getattr(c, 'natural', False)))
    if name in ('skip', 'limit'):
        k = conc(args[0].t)
        if k is None: raise Unsupported(name)
        return mk((name, k))
    if name in ('takeWhile', 'dropWhile'): return mk((name, ap(args[0])))
    if name == 'boxed': return mk(('map', lambda x: m.boxed(x)), None)
    if name == 'asLongStream': return mk(('map', lambda x: Lg(zint(x))), 'J')
    if name == 'asDoubleStream': return mk(('map', lambda x: m.i2d(it, x)), 'D')
    if name in ('parallel', 'sequential', 'unordered', 'onClose'): return s
    if name == 'close': return None
    # ---- terminal operations
    if name in ('anyMatch', 'allMatch', 'noneMatch'):
        if symb and not any(o[0] not in ('map', 'peek', 'filter') for o in s.ops):
            e = elem_fn(it, s)
            def pred(j):
                x = e(j)
                if x is SKIP: return z3.BoolVal(name == 'allMatch')
                return m.zbool(it.apply(args[0], x))
            g = Gen(s.seq.n, pred, name)
            t, f = boolsplit(g)
            go, stop = (f, t) if name != 'allMatch' else (t, f)
            i, r = g.first([go, stop, g.exc])
            if i == 2: raise r
            return int((i == 1) == (name == 'anyMatch'))
        if symb: s = Stream(forced(it, s), s.prim); return stream_call(it, s, name, desc, args)
        want = name != 'allMatch'
        for x in pull(it, s):
            if m.br(m.zbool(it.apply(args[0], x))) == want: return int(name == 'anyMatch')
        return int(name != 'anyMatch')
    if name in ('findFirst', 'findAny'):
        if symb:
            g = Gen(s.seq.n, elem_fn(it, s), name)
            keep = [o for o in g.ret if o.val is not SKIP]; drop = [o for o in g.ret if o.val is SKIP]
            i, r = g.first([drop, keep, g.exc])
            if i == 2: raise r
            if i == 0: return m.none()
        else:
            r = next(pull(it, s), SKIP)
            if r is SKIP: return m.none()
        if it.isnull(r): it.npe('findFirst')
        return m.some(r)
    if symb and name == 'count' and s.ops and s.ops[-1][0] == 'distinct': return Lg(distinct_count(it, Stream(s.seq, s.prim, s.ops[:-1])))
    if name in ('forEach', 'forEachOrdered'):
        return for_each(it, s, args[0])
    if name in ('reduce',) and s.seq.items is None: return reduce_symbolic(it, s, args)
    if name in ('min', 'max') and s.seq.items is None: return minmax_symbolic(it, s, name, args)
    if name in ('sum', 'average') and s.seq.items is None:
        if name == 'sum' and s.prim in ('I', 'J'):
            return reduce_symbolic(it, s, [0 if s.prim == 'I' else Lg(0), PyLam(lambda a, b: m.math_static(it, 'add', [s.prim], [a, b]))])
        raise Unsupported(name + ' of unknown length')
    if name == 'collect' and len(args) == 1 and isinstance(args[0], Obj) and args[0].cls == 'collector' and args[0].f.get('via') and symb:
        return args[0].f['via'](s)
    q = forced(it, s, name)
    if name == 'collect':
        if len(args) != 1 or not isinstance(args[0], Obj) or args[0].cls != 'collector': raise Unsupported('collect')
        return args[0].f['fin'](q)
    if name == 'toList': return JList(q, mutable=False)
    if name == 'toArray': return JArr(q if s.prim else q, {'I': 'I', 'J': 'J', 'D': 'D', None: 'Ljava/lang/Object;'}[s.prim])
    if name == 'iterator': return Iter(q)
    if name == 'count': return Lg(q.size())
    if name == 'isParallel': return 0
    xs = items_of(q)
    if name in ('min', 'max'):
        if not xs: return m.none()
        c = prim_cmp if s.prim in ('I', 'J') else cmp_fn(it, args[0]) if not s.prim else None
        if c is None: raise Unsupported(name + ' of doubles')
        r = xs[0]
        for x in xs[1:]:
            d = zi(c(r, x))
            if s.prim:
                t = z3.If(d <= 0, zi(r), zi(x)) if name == 'min' else z3.If(d >= 0, zi(r), zi(x))
                r = Lg(norm(t)) if s.prim == 'J' else norm(t)
            elif name == 'min': r = r if m.br(d <= 0) else x
            else: r = r if m.br(d >= 0) else x
        if not s.prim and it.isnull(r): it.npe(name)
        return m.some(r)
    if name == 'sum':
        if s.prim == 'D': raise Unsupported('sum of doubles')
        r = 0
        import jvm as J
        for x in xs: r = J.wrap(norm(r + zint(x)), 64 if s.prim == 'J' else 32)
        return Lg(norm(r)) if s.prim == 'J' else norm(r)
    if name == 'average':
        if not xs: return m.none()
        t = sum((z3.ToReal(zi(x)) for x in xs), z3.RealVal(0))
        return m.some(Dv(X.todbl(t / len(xs))))
    if name == 'reduce':
        if len(args) == 1:
            if not xs: return m.none()
            r = xs[0]
            for x in xs[1:]: r = it.apply(args[0], r, x)
            if it.isnull(r): it.npe('reduce')
            return m.some(r)
        r = args[0]
        for x in xs: r = it.apply(args[1], r, x)
        return r
    if name == 'summaryStatistics': raise Unsupported(name)
    raise Unsupported('Stream.' + name)

def for_each(it, s, f):
    if s.seq.items is not None:
        for x in pull(it, s): it.apply(f, x)
        return None
    e = elem_fn(it, s)
    def body(j):
        x = e(j)
        if x is not SKIP: it.apply(f, x)
    g = Gen(s.seq.n, body, 'forEach')
    apps = appends(g)
    i, r = g.first([g.ret, g.exc])
    if i == 1: raise r
    emit_all(it, g, apps, g.ret)
    return None
def appends(g):
    """the lists of enclosing calls that the body adds to"""
    apps = {}
    for o in g.ret:
        for l, x in o.appended or []: apps[l.id] = l
    for e in P().events:
        if e[0] == 'read' and e[1] in apps: raise Unsupported('a loop that reads the list it fills')
    return apps
def block_of(g, outs, lid):
    def block(t):
        """the elements that are added to the list at index t"""
        P().index(t)
        o = outs[P().choose([g.cond(o, t) for o in outs])] if len(outs) > 1 else outs[0]
        if len(outs) == 1: P().assume(g.cond(o, t))
        path = o.path
        pairs = [(c, z3.substitute(F, (g.j, t))) for c, F in o.sk] + [(g.j, t)]
        for k, fs in o.foralls: P().forall(k, [z3.substitute(h, (g.j, t)) for h in fs])
        own = lambda x: x.owner is path or within(x.owner, path)
        return [x if not isinstance(x, (Any, Obj, Seq)) else subst(x, pairs, own) for l, x in o.appended or [] if l.id == lid]
    return block
def emit_all(it, g, apps, outs):
    """the lists after a loop that takes one of these paths at every index"""
    for l in apps.values():
        q = flat_seq(it, g.n, block_of(g, outs, l.id), g.lo)
        if writes_appended(l): P().appended.append((l, q)); continue
        if conc(l.seq.size()) != 0: raise Unsupported('a loop that adds to a list that is not empty')
        M().seq_set(it, l, q)
def plus(a, b): return zi(a) if conc(b) == 0 else zi(a) + zi(b)
def minus(a, b): return zi(a) if conc(b) == 0 else zi(a) - zi(b)
def flat_seq(it, n, block, lo=None):
    """the concatenation of the blocks lo..n-1; a block is a list of elements and of Seqs"""
    lo = z3.IntVal(0) if lo is None else zi(lo)
    p = P()
    p.subs += 1
    lab = '%sflat%d' % (p.label, p.subs)
    # when every block has exactly one element the sequence is elementwise
    g = Gen(n, lambda j: block_len(it, block(j)), 'one', lo)
    if not g.exc and all(isinstance(o.val, int) and o.val == 1 for o in g.ret): return Seq(n=norm(minus(n, lo)), fn=lambda t: block(plus(t, lo))[0]) if not g.ret == [] else Seq(items=[])
    N = z3.Const(lab + 'N', X.I); p.assume(N >= 0)
    bi = z3.Function(lab + 'bi', X.I, X.I); bo = z3.Function(lab + 'bo', X.I, X.I)
    def at(t):
        t = zi(t); i, k = bi(t), bo(t)
        P().assume(z3.Implies(z3.And(t >= 0, t < N), z3.And(i >= lo, i < n, k >= 0)))
        P().index(i); P().index(k)
        b = block(i)
        if len(b) != 1: raise Unsupported('mixed blocks') if b else Infeasible()
        x = b[0]
        if not isinstance(x, Seq): return x
        P().assume(z3.Implies(z3.And(t >= 0, t < N), k < zi(x.size())))
        return x.at(k)
    return Seq(n=N, fn=at, tag=('flat',), flat=(n, block, lo))
def block_len(it, b):
    if len(b) == 1 and not isinstance(b[0], Seq): return 1
    return z3.IntVal(-1)

def distinct_count(it, s):
    """number of distinct elements of a sequence of unknown length: only whether it is 0, 1 or more is known"""
    q = forced(it, s)
    n = zi(q.size())
    p = P()
    if p.branch(n == 0): return 0
    first = q.at(z3.IntVal(0))
    g = Gen(n, lambda j: M().zbool(M().null_equals(it, first, q.at(j))), 'distinct')
    t, f = boolsplit(g)
    i, r = g.first([t, f, g.exc])
    if i == 2: raise r
    if i == 0: return 1
    c = p.approx('distinct', X.I); p.assume(c >= 2, c <= n)
    return c

def reduce_symbolic(it, s, args):
    for f in REDUCE:
        r = f(it, s, args)
        if r is not NotImplemented: return r
    raise Unsupported('reduce of unknown length')
def minmax_symbolic(it, s, name, args):
    """a smallest element: an element that no other is below"""
    m = M()
    q = forced(it, s, name)
    n = zi(q.size()); p = P()
    if p.branch(n == 0): return m.none()
    w = p.fresh(name, X.I); p.assume(w >= 0, w < n); p.index(w)
    x = q.at(w)
    c = prim_cmp if s.prim in ('I', 'J') else cmp_fn(it, args[0]) if not s.prim else None
    if c is None: raise Unsupported('min of doubles')
    def cond(j):
        d = zi(c(x, q.at(j)))
        return d <= 0 if name == 'min' else d >= 0
    g = Gen(n, cond, name)
    t, f = boolsplit(g)
    if g.exc: 
        i, r = g.first([g.ret, g.exc])
        if i == 1: raise r
    g.all_are(t)
    return m.some(x)

# ---------------------------------------------------------------- collectors
def collector(fin, via=None):
    o = Obj('collector'); o.f['fin'] = fin
    if via: o.f['via'] = via
    return o
def collectors(it, name, args):
    m = M()
    if name in ('toList', 'toUnmodifiableList'): return collector(lambda q: JList(q))
    if name in ('toSet', 'toUnmodifiableSet'):
        def fin(q):
            l = JList(Seq(items=dedupe(it, q.items)) if q.items is not None else copy_seq(q), cls='java/util/HashSet'); l.isset = True; return l
        return collector(fin)
    if name == 'toCollection':
        def fin(q):
            l = it.apply(args[0])
            if getattr(l, 'isset', False): q = Seq(items=dedupe(it, items_of(q)))
            l.seq = q; return l
        return collector(fin)
    if name == 'joining':
        sep = text(args[0]) if args else ''
        if sep is None or len(args) > 1: raise Unsupported('joining')
        return collector(lambda q: join_texts(it, sep, q))
    if name == 'counting': return collector(lambda q: Any(V.Long(zi(q.size()))))
    if name == 'mapping':
        return collector(lambda q: args[1].f['fin'](forced(it, Stream(q, None, [('map', lambda x: it.apply(args[0], x))]))))
    if name == 'collectingAndThen': return collector(lambda q: it.apply(args[1], args[0].f['fin'](q)))
    if name in ('groupingBy', 'partitioningBy'):
        def fin(q):
            mp = JMap('java/util/HashMap'); g = []
            down = args[-1] if len(args) > 1 else collectors(it, 'toList', [])
            if len(args) == 3: mp = it.apply(args[1])
            for x in items_of(q):
                k = it.apply(args[0], x)
                for e in g:
                    if m.br(m.zbool(m.null_equals(it, e[0], k))): e[1].append(x); break
                else: g.append((k, [x]))
            mp.d = [[k, down.f['fin'](Seq(items=xs))] for k, xs in g]
            if name == 'groupingBy' and len(args) < 3: mp.unordered = True
            return mp
        return collector(fin)
    if name == 'toMap':
        def fin(q):
            mp = JMap('java/util/HashMap') if len(args) < 4 else it.apply(args[3])
            for x in items_of(q):
                k, v = it.apply(args[0], x), it.apply(args[1], x)
                for e in mp.d:
                    if m.br(m.zbool(m.null_equals(it, e[0], k))):
                        if len(args) < 3: throw('java/lang/IllegalStateException')
                        e[1] = it.apply(args[2], e[1], v); break
                else: mp.d.append([k, v])
            return mp
        return collector(fin)
    if name in ('minBy', 'maxBy'): return collector(lambda q: stream_call(it, Stream(q), name[:3], '', args))
    if name == 'reducing' and len(args) == 2: return collector(lambda q: stream_call(it, Stream(q), 'reduce', '', args))
    if name in ('summingInt', 'summingLong'):
        p = 'I' if name.endswith('Int') else 'J'
        return collector(lambda q: m.boxed(stream_call(it, Stream(q, p, [('map', lambda x: it.apply(args[0], x))]), 'sum', '', [])))
    raise Unsupported('Collectors.' + name)

# ---------------------------------------------------------------- lists
def writes_appended(l):
    """whether l belongs to an enclosing path while a loop body runs at a generic index"""
    p = P()
    if p is None or l.owner is p: return False
    q = p
    while q is not None:
        if l.owner is q: return True
        q = q.parent
    return False
def list_add(it, l, name, args):
    if name != 'addAll': P().appended.append((l, args[0])); return 1
    q = M().seq_of(it, args[0])
    if q.items is not None: P().appended += [(l, x) for x in q.items]
    else: P().appended.append((l, q))
    return 1
def list_call(it, l, owner, name, desc, args):
    m = M()
    s = l.seq
    isset = getattr(l, 'isset', False)
    if writes_appended(l) and l.mutable and name not in ('add', 'addAll', 'addLast'): P().events.append(('read', l.id))
    if isset:
        tree_keys(it, l, args if name in ('add', 'remove', 'contains') else [])
        if s.items is None or name in ('add', 'addAll') and writes_appended(l):      # a set of unknown size is kept as the list of what was put in
            if name == 'size': return norm(distinct_count(it, Stream(s)))
            if name == 'isEmpty': return s.n == 0
            if name in ('stream', 'parallelStream'): return par(Stream(s, ops=[('distinct',)]), name)
            if name in ('add', 'addAll'):
                if writes_appended(l): list_add(it, l, name, args)
                elif name == 'add': m.seq_set(it, l, concat_seq(it, s, Seq(items=[args[0]])))
                else: m.seq_set(it, l, concat_seq(it, s, m.seq_of(it, args[0])))
                return Obj('whether the set had the element')
            if name not in ('contains', 'equals', 'hashCode', 'toString', 'getClass'): raise Unsupported('Set.%s of unknown size' % name)
    if not l.mutable and name in ('add', 'addAll', 'remove', 'set', 'clear', 'sort', 'removeIf', 'replaceAll'):
        throw('java/lang/UnsupportedOperationException')
    if name == 'size': return norm(s.size())
    if name == 'isEmpty': return int(len(s.items) == 0) if s.items is not None else (s.n == 0)
    if name == 'get' or name == 'elementAt': return m.seq_get(it, s, args[0], 'java/lang/IndexOutOfBoundsException')
    if name in ('getFirst', 'getLast'):
        k = 0 if name == 'getFirst' else zi(s.size()) - 1
        return m.seq_get(it, s, norm(k), 'java/util/NoSuchElementException')
    if name in ('stream', 'parallelStream'): return par(Stream(s), name)
    if name == 'iterator' or name == 'listIterator': return Iter(s)
    if name == 'forEach': return for_each(it, Stream(s), args[0])
    if name == 'contains': return M().ret_bool(M().zbool(contains(it, s, args[0])))
    if name in ('add', 'addLast') and len(args) == 1:
        if isset and s.items is not None:
            if M().br(M().zbool(contains(it, s, args[0]))): return 0
        if writes_appended(l): return list_add(it, l, name, args)
        if s.items is None: m.seq_set(it, l, concat_seq(it, s, Seq(items=[args[0]]))); return 1
        m.seq_write(it, l, lambda items: items.append(args[0])); return 1
    if name == 'add' and len(args) == 2:
        k = conc(args[0])
        if k is None or not 0 <= k <= len(items_of(s)): raise Unsupported('add at an index')
        m.seq_write(it, l, lambda items: items.insert(k, args[1])); return None
    if name == 'addAll' and len(args) == 1:
        if writes_appended(l): return list_add(it, l, name, args)
        q = m.seq_of(it, args[0])
        if s.items is not None and q.items is not None:
            new = q.items
            if isset: new = [x for x in dedupe(it, s.items + q.items)][len(s.items):]
            m.seq_write(it, l, lambda items: items.extend(new)); return int(bool(new))
        m.seq_set(it, l, concat_seq(it, s, q)); return z3.BoolVal(bool(q.items)) if q.items is not None else q.n != 0
    if name == 'set':
        k = conc(args[0])
        if k is None: raise Unsupported('set at a symbolic index')
        if not 0 <= k < len(items_of(s)): throw('java/lang/IndexOutOfBoundsException')
        old = s.items[k]
        m.seq_write(it, l, lambda items: items.__setitem__(k, args[1])); return old
    if name == 'remove' and parse_desc(desc)[0] == ['I']:
        k = conc(args[0])
        if k is None: raise Unsupported('remove at a symbolic index')
        if not 0 <= k < len(items_of(s)): throw('java/lang/IndexOutOfBoundsException')
        old = s.items[k]
        m.seq_write(it, l, lambda items: items.pop(k)); return old
    if name == 'clear': m.seq_write(it, l, lambda items: items.clear()) if s.items is not None else m.seq_set(it, l, Seq(items=[])); return None
    if name == 'sort': sort_list(it, l, args[0]); return None
    if name == 'toArray': return JArr(copy_seq(s), 'Ljava/lang/Object;')
    if name == 'subList':
        i, j = conc(args[0]), conc(args[1])
        if s.items is None or i is None or j is None: raise Unsupported('subList')
        if not 0 <= i <= j <= len(s.items): throw('java/lang/IndexOutOfBoundsException')
        return JList(Seq(items=s.items[i:j]), mutable=False)
    if name in ('indexOf',):
        for k, x in enumerate(items_of(s)):
            if m.br(m.zbool(m.null_equals(it, args[0], x))): return k
        return -1
    if name == 'containsAll' and m.seq_of(it, args[0]).items is None: return m.ret_bool(m.zbool(stream_call(it, Stream(m.seq_of(it, args[0])), 'allMatch', '', [PyLam(lambda x: m.zbool(contains(it, s, x)))])))
    if name == 'removeIf' and s.items is None:
        q = forced(it, Stream(s, ops=[('filter', lambda x: z3.Not(m.zbool(it.apply(args[0], x))))])); m.seq_set(it, l, q); return zi(q.size()) != zi(s.size())
    if name == 'containsAll':
        for x in items_of(m.seq_of(it, args[0])):
            if not m.br(m.zbool(contains(it, s, x))): return 0
        return 1
    if name == 'removeIf':
        keep = [x for x in items_of(s) if not m.br(m.zbool(it.apply(args[0], x)))]
        ch = len(keep) != len(s.items); m.seq_set(it, l, Seq(items=keep)); return int(ch)
    if name == 'equals': return m.ret_bool(m.zbool(m.jequals(it, l, args[0])))
    if name == 'hashCode': return P().approx('hash', X.I)
    if name == 'toString': return m.strv(P().approx('text', S))
    if name == 'getClass': return JClass(l.cls)
    raise Unsupported('List.' + name)
def sort_list(it, l, c):
    if l.seq.items is not None: M().seq_set(it, l, Seq(items=sort_items(it, l.seq.items, cmp_fn(it, c))))
    else: M().seq_set(it, l, sorted_seq(it, l.seq, c is None or getattr(c, 'natural', False)))

def coll_call(it, a, name, desc, args):
    """methods of a collection of the data"""
    s = it.coll_seq(a)
    m = M()
    if name == 'size': return norm(s.size())
    if name == 'isEmpty': return int(not s.items) if s.items is not None else (s.n == 0)
    if name in ('stream', 'parallelStream'): return par(Stream(s), name)
    if name == 'forEach': return for_each(it, Stream(s), args[0])
    if name == 'iterator': return Iter(s)
    if name == 'toArray': return JArr(copy_seq(s), 'Ljava/lang/Object;')
    if name == 'contains': return m.ret_bool(m.zbool(contains(it, s, args[0])))
    if name == 'get' and parse_desc(desc)[0] == ['I']: return m.seq_get(it, s, args[0], 'java/lang/IndexOutOfBoundsException')
    if name in ('add', 'addAll', 'remove', 'clear', 'removeIf', 'sort', 'set', 'retainAll', 'removeAll'):
        P().events.append(('frame', 'a collection of the data is modified (%s)' % name))
        raise Unsupported('Collection.%s on the data' % name)
    raise Unsupported('Collection.%s on the data' % name)

# ---------------------------------------------------------------- maps
def map_find(it, mp, k):
    m = M()
    if isinstance(k, SEnum) : k = resolve(it, k)
    if hasattr(mp, 'find'): return mp.find(k)
    if isinstance(k, Obj) and '$ordinal' in k.f:
        for e in mp.d:
            if e[0] is k: return e
        return None
    tree_keys(it, mp, [k])
    if mp.cls == 'java/util/IdentityHashMap' and mp.d: raise Unsupported('which objects are the same in an IdentityHashMap')
    for e in mp.d:
        b = m.null_equals(it, e[0], k)
        if m.br(m.zbool(b)):
            if mp.cls == 'java/util/WeakHashMap' and P().fork(P().fresh('collected', X.B)): return None
            return e
    return None
def map_set(it, mp, d):
    it.writable(mp, 'the entries of a map')
    old = mp.d; mp.d = d
    if P() is not None and mp.owner is not P(): P().journal.append(lambda: setattr(mp, 'd', old))
def map_call(it, mp, owner, name, desc, args):
    m = M()
    if hasattr(mp, 'find') and name not in ('get', 'containsKey', 'getOrDefault', 'put', 'putIfAbsent', 'merge', 'computeIfAbsent', 'compute', 'computeIfPresent'): raise Unsupported('Map.%s in a loop' % name)
    if mp.cls in ('java/util/EnumMap', 'java/util/TreeMap') and name in ('put', 'putIfAbsent') and args and it.isnull(args[0]): it.npe(mp.cls)
    if mp.cls == 'java/util/concurrent/ConcurrentHashMap' and args and (it.isnull(args[0]) or name in ('put', 'putIfAbsent', 'merge') and it.isnull(args[1])): it.npe(mp.cls)
    if name == 'get':
        e = map_find(it, mp, args[0]); return e[1] if e else None
    if name == 'containsKey': return int(map_find(it, mp, args[0]) is not None)
    if name == 'getOrDefault':
        e = map_find(it, mp, args[0]); return e[1] if e else args[1]
    if name in ('put', 'putIfAbsent'):
        e = map_find(it, mp, args[0])
        if e:
            old = e[1]
            if name == 'put' or name == 'putIfAbsent' and it.isnull(old): map_put(it, mp, e, args[1])
            return old
        k = resolve(it, args[0]) if isinstance(args[0], SEnum) else args[0]
        d = [list(x) for x in mp.d] + [[k, args[1]]]
        if mp.cls == 'java/util/EnumMap': d.sort(key=lambda x: x[0].f['$ordinal'])
        map_set(it, mp, d); return None
    if name == 'merge':
        e = map_find(it, mp, args[0])
        v = args[1] if e is None else it.apply(args[2], e[1], args[1])
        if it.isnull(v): raise Unsupported('merge to null')
        if e: map_put(it, mp, e, v)
        else: map_set(it, mp, mp.d + [[args[0], v]])
        return v
    if name in ('computeIfAbsent', 'compute', 'computeIfPresent'):
        e = map_find(it, mp, args[0])
        if name == 'computeIfAbsent':
            if e and not it.isnull(e[1]): return e[1]
            v = it.apply(args[1], args[0])
            if it.isnull(v): return None
        else:
            if name == 'computeIfPresent' and not e: return None
            v = it.apply(args[1], args[0], e[1] if e else None)
            if it.isnull(v):
                if e: raise Unsupported('an entry removed by Map.' + name)
                return None
        if e: map_put(it, mp, e, v)
        else: map_set(it, mp, mp.d + [[args[0], v]])
        return v
    if name == 'size': return len(mp.d)
    if name == 'isEmpty': return int(not mp.d)
    if getattr(mp, 'unordered', False) or mp.cls == 'java/util/HashMap':
        if name in ('values', 'keySet', 'entrySet', 'forEach') and len(mp.d) > 1: raise Unsupported('iteration order of a HashMap')
    if name == 'values': return JList(Seq(items=[v for _, v in mp.d]), mutable=False)
    if name == 'keySet': return JList(Seq(items=[k for k, _ in mp.d]), mutable=False)
    if name == 'entrySet': return JList(Seq(items=[pair(k, v) for k, v in mp.d]), mutable=False)
    if name == 'forEach':
        for k, v in mp.d: it.apply(args[0], k, v)
        return None
    if name == 'putAll':
        for k, v in args[0].d: map_call(it, mp, owner, 'put', desc, [k, v])
        return None
    if name == 'remove':
        e = map_find(it, mp, args[0])
        if e: map_set(it, mp, [x for x in mp.d if x is not e]); return e[1]
        return None
    if name == 'clear': map_set(it, mp, []); return None
    if name == 'hashCode': return P().approx('hash', X.I)
    raise Unsupported('Map.' + name)
def map_put(it, mp, e, v):
    if not any(x is e for x in mp.d): map_set(it, mp, mp.d + [[e[0], v]]); return e[1]
    it.writable(mp, 'the entries of a map')
    p = P()
    old = e[1]; e[1] = v
    if p is not None and mp.owner is not p: p.journal.append(lambda: e.__setitem__(1, old))
    return old
def pair(k, v):
    o = Obj('pair'); o.f['l'], o.f['r'] = k, v; return o

# ---------------------------------------------------------------- static methods
def varargs(it, a):
    return M().seq_of(it, a)
def static_call(it, o, name, desc, args):
    m = M()
    pts, rt = parse_desc(desc)
    if o == 'Collectors': return collectors(it, name, args)
    if o == 'Arrays':
        if name == 'asList': l = JList(varargs(it, args[0]), cls='java/util/Arrays$ArrayList'); return l
        if name == 'stream' and len(args) == 1:
            e = pts[0]
            return Stream(m.arr(it, args[0]), {'[I': 'I', '[J': 'J', '[D': 'D'}.get(e))
        if name == 'stream' and len(args) == 3:
            i, j = conc(args[1]), conc(args[2]); s = m.arr(it, args[0])
            if s.items is not None and i is not None and j is not None: return Stream(Seq(items=s.items[i:j]))
            if i is not None and s.tag and s.tag[0] == 'parts' and z3.simplify(zi(args[2]) == s.n).eq(z3.BoolVal(True)): return Stream(s, None, [('skip', i)])
            raise Unsupported('Arrays.stream of a range')
        if name == 'copyOfRange':
            i, j = conc(args[1]), conc(args[2]); s = m.arr(it, args[0])
            if s.items is not None and i is not None and j is not None and 0 <= i <= j: return JArr(Seq(items=[s.items[k] if k < len(s.items) else None for k in range(i, j)]), getattr(args[0], 'elem', 'Ljava/lang/Object;'))
            if i is not None and s.tag and s.tag[0] == 'parts' and z3.simplify(zi(args[2]) == s.n).eq(z3.BoolVal(True)): return JArr(forced(it, Stream(s, None, [('skip', i)])), 'Ljava/lang/String;')
            raise Unsupported('Arrays.copyOfRange')
        if name == 'sort' and len(args) <= 2:
            a = args[0]
            if isinstance(a, JArr) and a.seq.items is not None:
                c = prim_cmp if a.elem in ('I', 'J') else cmp_fn(it, args[1] if len(args) > 1 else None)
                m.seq_set(it, a, Seq(items=sort_items(it, a.seq.items, c))); return None
            if isinstance(a, JArr): m.seq_set(it, a, sorted_seq(it, a.seq, len(args) == 1)); return None
        if name == 'toString': return m.strv(P().approx('text', S))
        if name == 'hashCode': return P().approx('hash', X.I)
    if o == 'Collections':
        if name == 'sort': sort_list(it, args[0], args[1] if len(args) > 1 else None); return None
        if name == 'singletonList' or name == 'singleton': return JList(Seq(items=[args[0]]), mutable=False)
        if name in ('emptyList', 'emptySet'): return JList(Seq(items=[]), mutable=False)
        if name == 'emptyMap': return JMap('java/util/Map')
        if name in ('unmodifiableList', 'unmodifiableCollection', 'unmodifiableSet'): l = JList(args[0].seq, mutable=False); return l
        if name in ('unmodifiableMap',): return args[0]
        if name in ('max', 'min'):
            q = m.seq_of(it, args[0])
            r = stream_call(it, Stream(q), name, '', [args[1] if len(args) > 1 else None])
            if r.f['v'] is m.NONE: throw('java/util/NoSuchElementException')
            return r.f['v']
        if name == 'reverseOrder' and not args: return PyLam(lambda a, b: m.compare_values(it, b, a))
        if name == 'reverseOrder': return PyLam(lambda a, b: it.apply(args[0], b, a))
        if name == 'addAll':
            for x in items_of(varargs(it, args[1])): list_call(it, args[0], '', 'add', '(Ljava/lang/Object;)Z', [x])
            return 1
        if name == 'reverse' and args[0].seq.items is not None: m.seq_set(it, args[0], Seq(items=args[0].seq.items[::-1])); return None
    if o in ('List', 'Set'):
        if name == 'of':
            if pts and pts[0].startswith('['): q = varargs(it, args[0])
            else: q = Seq(items=list(args))
            l = JList(q, mutable=False)
            if o == 'Set': l.isset = True
            return l
        if name == 'copyOf': return JList(m.seq_of(it, args[0]), mutable=False)
    if o == 'Map':
        if name == 'of':
            mp = JMap('java/util/HashMap'); mp.d = [[args[k], args[k+1]] for k in range(0, len(args), 2)]; return mp
        if name == 'entry': return pair(*args)
    if o == 'Stream':
        if name == 'of':
            if pts[0].startswith('['): return Stream(varargs(it, args[0]))
            return Stream(Seq(items=[args[0]]))
        if name == 'empty': return Stream(Seq(items=[]))
        if name == 'ofNullable': return Stream(Seq(items=[] if it.isnull(args[0]) else [args[0]]))
        if name == 'concat':
            a, b = args
            if a.seq.items is not None and b.seq.items is not None: return Stream(Seq(items=list(pull(it, a)) + list(pull(it, b))), a.prim)
    if o in ('IntStream', 'LongStream'):
        if name in ('range', 'rangeClosed'):
            i, j = norm(zint(args[0])), norm(zint(args[1]))
            pr = 'I' if o == 'IntStream' else 'J'
            up = (lambda k: Lg(k)) if pr == 'J' else (lambda k: k)
            n = norm((j - i) + (1 if name == 'rangeClosed' else 0))
            if isinstance(n, int): return Stream(Seq(items=[up(norm(i + k)) for k in range(max(0, n))]), pr)
            if it.bound is None:
                n = z3.If(n < 0, z3.IntVal(0), n)
                return Stream(Seq(n=n, fn=lambda k: up(norm(i + zi(k)))), pr)
            raise Unsupported('range')
        if name == 'of': return Stream(varargs(it, args[0]) if pts[0].startswith('[') else Seq(items=[args[0]]), 'I' if o == 'IntStream' else 'J')
    if o == 'Comparator':
        if name == 'naturalOrder': return m.natural(it)
        if name == 'reverseOrder': return PyLam(lambda a, b: m.compare_values(it, b, a))
        if name in ('comparing', 'comparingInt', 'comparingLong', 'comparingDouble'):
            f = args[0]
            if name == 'comparing':
                c = cmp_fn(it, args[1] if len(args) > 1 else None)
                return PyLam(lambda a, b: c(it.apply(f, a), it.apply(f, b)))
            if name == 'comparingDouble': raise Unsupported(name)
            return PyLam(lambda a, b: prim_cmp(it.apply(f, a), it.apply(f, b)))
    if o == 'EnumSet':
        if name in ('of', 'noneOf', 'allOf', 'range', 'copyOf'):
            xs = []
            if name == 'of':
                for a in args: xs += a.seq.items if isinstance(a, JArr) else [a]
            elif name == 'allOf': xs = it.enum_consts(args[0].name)
            elif name == 'copyOf': xs = items_of(args[0].seq)
            elif name == 'range':
                xs = it.enum_consts(args[0].cls.split('$')[0]); xs = xs[xs.index(args[0]):xs.index(args[1])+1]
            l = JList(Seq(items=list(xs))); l.isset = True; return l
    raise Unsupported('%s.%s%s' % (o, name, desc))

# ---------------------------------------------------------------- loops
LOOPS = []      # extension: summaries of loops over sequences of unknown length
def loop_head(it, cls, m, pc, end, loc, st):
    for f in LOOPS:
        r = f(it, cls, m, pc, end, loc, st)
        if r is not None: return r
    return None
