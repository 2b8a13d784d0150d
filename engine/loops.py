"""Loops and folds over sequences of unknown length: induction over the index with an invariant taken from a fixed stock of templates.

What a loop computes is described by ghost functions of the list of values it runs over (the list with number L):
NUM(L,k) the number the k-th value is, PSUM(L,k) the sum of the first k, PMIN/PMAX(L,k) the smallest and largest of the first k (k > 0),
SRT(L,i) the i-th smallest, CNT(L,k,r) how many of the first k are r, BEST(L,k) and BESTN(L,k) the position and the count of the value
whose count was the first to exceed every count before it.  They are defined by recursion over k (rec_*); the facts used of them beyond the
recursion (fact_*: a minimum is below every element and is one of them, order statistics are sorted) are obligations themselves (ghost_lemmas)."""
import z3
import vals as X
from vals import V
import core, jvm, seqs, spec, models
from core import P, JavaExc, Unsupported, Infeasible
from jvm import Lg, Dv, Any, Obj, Seq, JList, JArr, JMap, SNode, Stream, zi, zint, conc, norm, touch
from seqs import Gen, Iter

NUM = z3.Function('NUM', X.I, X.I, X.R); PSUM = z3.Function('PSUM', X.I, X.I, X.R); PMIN = z3.Function('PMIN', X.I, X.I, X.R); PMAX = z3.Function('PMAX', X.I, X.I, X.R)
WMIN = z3.Function('WMIN', X.I, X.I, X.I); WMAX = z3.Function('WMAX', X.I, X.I, X.I)
SRT = z3.Function('SRT', X.I, X.I, X.R); WSRT = z3.Function('WSRT', X.I, X.I, X.I)
CNT = z3.Function('CNT', X.I, X.I, X.R, X.I); BEST = z3.Function('BEST', X.I, X.I, X.I); BESTN = z3.Function('BESTN', X.I, X.I, X.I)
SCALE = z3.Function('SCALE', X.I, X.I, X.I, X.I)         # the scale of an accumulated BigDecimal: any
def num_fact(L, k):
    saved, X.KINDSOF[0] = X.KINDSOF[0], None
    try: return NUM(L, k) == X.nm(spec.LV(L, k))
    finally: X.KINDSOF[0] = saved
def use(L, what):
    """the definitions of the ghost functions of list L hold on this path"""
    p = P(); g = p.ghost.get('ghostlists', {})
    if what in g.get(L.get_id(), ()): return
    p.ghost['ghostlists'] = dict(g); p.ghost['ghostlists'][L.get_id()] = g.get(L.get_id(), ()) + (what,)
    p.ghost.setdefault('keep', []).append(L)
    k = z3.Const(p.label + 'gk', X.I); n = spec.LN(L); on = z3.And(k >= 0, k < n)
    if what == 'num': p.forall(k, [z3.Implies(on, num_fact(L, k))]); return
    use(L, 'num')
    p.index(z3.IntVal(0))
    if what == 'sum': p.assume(PSUM(L, 0) == 0); p.forall(k, [z3.Implies(on, rec_sum(L, k))])
    if what in ('min', 'max'):
        p.forall(k, [z3.Implies(on, rec_ext(what, L, k)), fact_bound(what, L, n, k)])
        p.assume(fact_witness(what, L, n)); p.index((WMIN if what == 'min' else WMAX)(L, n))
    if what == 'sorted':
        use(L, 'min'); use(L, 'max')
        p.forall(k, [fact_between(L, n, k), rec_sorted(L, n, k)])
        p.assume(fact_ends(L, n))
    if what == 'mode':
        p.assume(BEST(L, 0) == 0, BESTN(L, 0) == 1)
        p.forall(k, [z3.Implies(on, z3.And(rec_best(L, k), CNT(L, 0, NUM(L, k)) == 0, fact_count(L, k, NUM(L, k)), fact_best(L, k)))])
        p.assume(fact_best(L, n))
# the definitions, by recursion over k
def rec_sum(L, k): return PSUM(L, k + 1) == PSUM(L, k) + NUM(L, k)
def better(what, L, k): return NUM(L, k) < PMIN(L, k) if what == 'min' else NUM(L, k) > PMAX(L, k)
def rec_ext(what, L, k):
    F, W = (PMIN, WMIN) if what == 'min' else (PMAX, WMAX)
    return F(L, k + 1) == z3.If(k == 0, NUM(L, k), z3.If(better(what, L, k), NUM(L, k), F(L, k)))
def rec_witness(what, L, k):
    W = WMIN if what == 'min' else WMAX
    return W(L, k + 1) == z3.If(z3.Or(k == 0, better(what, L, k)), k, W(L, k))
def rec_count(L, k, r): return CNT(L, k + 1, r) == CNT(L, k, r) + z3.If(NUM(L, k) == r, 1, 0)
def rec_best(L, k):
    c = CNT(L, k, NUM(L, k)) + 1
    return z3.And(BEST(L, k + 1) == z3.If(c > BESTN(L, k), k, BEST(L, k)), BESTN(L, k + 1) == z3.If(c > BESTN(L, k), c, BESTN(L, k)))
# order statistics: the elements in another order (WSRT is a permutation, WINV its inverse), ascending
WINV = z3.Function('WINV', X.I, X.I, X.I)
def def_perm(L, n, i): return z3.Implies(z3.And(i >= 0, i < n), z3.And(WSRT(L, i) >= 0, WSRT(L, i) < n, WINV(L, i) >= 0, WINV(L, i) < n, WINV(L, WSRT(L, i)) == i, WSRT(L, WINV(L, i)) == i, SRT(L, i) == NUM(L, WSRT(L, i))))
def rec_sorted(L, n, k): return z3.Implies(z3.And(k >= 0, k + 1 < n), SRT(L, k) <= SRT(L, k + 1))
# their consequences
def fact_bound(what, L, n, k): return z3.Implies(z3.And(k >= 0, k < n), PMIN(L, n) <= NUM(L, k) if what == 'min' else PMAX(L, n) >= NUM(L, k))
def fact_witness(what, L, n):
    F, W = (PMIN, WMIN) if what == 'min' else (PMAX, WMAX)
    return z3.Implies(n > 0, z3.And(W(L, n) >= 0, W(L, n) < n, F(L, n) == NUM(L, W(L, n))))
def fact_between(L, n, k): return z3.Implies(z3.And(k >= 0, k < n), z3.And(SRT(L, 0) <= SRT(L, k), SRT(L, k) <= SRT(L, n - 1)))
def fact_ends(L, n): return z3.Implies(n > 0, z3.And(SRT(L, 0) == PMIN(L, n), SRT(L, n - 1) == PMAX(L, n)))
def fact_element(L, n, i): return z3.Implies(z3.And(i >= 0, i < n), z3.And(WSRT(L, i) >= 0, WSRT(L, i) < n, SRT(L, i) == NUM(L, WSRT(L, i))))
def fact_count(L, k, r): return z3.And(CNT(L, k, r) >= 0, CNT(L, k, r) <= k)
def fact_best(L, k): return z3.And(BEST(L, k) >= 0, BEST(L, k) <= k, z3.Implies(k > 0, BEST(L, k) < k), BESTN(L, k) >= 1, BESTN(L, k) <= k + 1)
def ghost_lemmas():
    """the consequences, by induction: (name, hypotheses, goal) to be valid each; L, n, i, k, r are arbitrary"""
    L, n, i, j, r = z3.Ints('L n i j') + [z3.Real('r')]; z = z3.IntVal(0); out = []
    def ind(name, claim, defs, at=lambda j: j):
        out.append((name + ', at 0', [], claim(z))) if not isinstance(defs, tuple) else out.append((name + ', at 0', list(defs[1]), claim(z)))
        out.append((name + ', from j to j + 1', [j >= 0] + (list(defs[0]) if isinstance(defs, tuple) else list(defs)) + [claim(j)], claim(j + 1)))
    for w in ('min', 'max'):
        ind('the %simum bounds the elements' % w, lambda j: fact_bound(w, L, j, i), [rec_ext(w, L, j)])
        ind('the %simum is an element' % w, lambda j: fact_witness(w, L, j), [rec_ext(w, L, j), rec_witness(w, L, j)])
    ind('the first order statistic is the smallest', lambda j: z3.Implies(j < n, SRT(L, 0) <= SRT(L, j)), [rec_sorted(L, n, j)])
    ind('the last order statistic is the largest', lambda j: z3.Implies(j < n, SRT(L, n - 1 - j) <= SRT(L, n - 1)), [rec_sorted(L, n, n - 2 - j)])
    first = lambda k: z3.Implies(z3.And(k >= 0, k < n), SRT(L, 0) <= SRT(L, k)); last = lambda k: z3.Implies(z3.And(n - 1 - k >= 0, n - 1 - k < n), SRT(L, k) <= SRT(L, n - 1))
    out.append(('order statistics lie between the first and the last', [first(i), last(i)], fact_between(L, n, i)))
    out.append(('order statistics are elements', [def_perm(L, n, i)], fact_element(L, n, i)))
    hyp = []
    for w, W in (('min', WMIN), ('max', WMAX)):
        x = W(L, n); hyp += [fact_witness(w, L, n), def_perm(L, n, x), fact_between(L, n, WINV(L, x)), def_perm(L, n, WINV(L, x))]
        for e in (z, n - 1): hyp += [def_perm(L, n, e), fact_bound(w, L, n, WSRT(L, e))]
    out.append(('the first and the last order statistic are minimum and maximum', hyp, fact_ends(L, n)))
    ind('counts', lambda j: fact_count(L, j, r), ([rec_count(L, j, r)], [CNT(L, 0, r) == 0]))
    ind('best position and count', lambda j: fact_best(L, j), ([rec_best(L, j), fact_count(L, j, NUM(L, j))], [BEST(L, 0) == 0, BESTN(L, 0) == 1]))
    return out
def prove_ghosts():
    bad = []
    for name, hyps, goal in ghost_lemmas():
        s = z3.Solver(); s.set('timeout', 20000); s.add(hyps); s.add(z3.Not(goal))
        c = s.check()
        if c != z3.unsat: bad.append((name, str(c)))
        # the hypotheses do not contradict each other
        s = z3.Solver(); s.set('timeout', 20000); s.add(hyps)
        if s.check() != z3.sat: bad.append((name, 'contradictory hypotheses'))
    return bad
def srt_at(L, i):
    """the i-th smallest element is an element"""
    use(L, 'sorted'); p = P()
    L, i = models.known_as('srt', (L, z3.simplify(zi(i)))); p.index(i)
    n = spec.LN(L)
    p.assume(fact_element(L, n, i)); p.index(WSRT(L, i))
    return SRT(L, i)
def lists():
    return [t for t in P().ghost.get('listids', [])]

# ---------------------------------------------------------------- templates
class NoTemplate(Exception): pass
def ent(c):
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return P().entails(c, 1500) is True
def form(v):
    """how a number is held"""
    if isinstance(v, Lg): return 'J'
    if isinstance(v, bool) or isinstance(v, z3.BoolRef): return None
    if isinstance(v, (int, z3.ArithRef)): return 'I'
    if isinstance(v, Any):
        k = X.kind_syn(v.v)
        if k is None:
            ks = X.kinds_of(v.v); k = ks[0] if len(ks) == 1 else None
        if k in ('Dec', 'Int', 'Long'): return k
        if k is None and all(x in X.NUMK for x in X.kinds_of(v.v)): return 'V'
    return None
def number(f, r, L=None, j=None):
    """the value of form f that is the number r"""
    if f in ('I', 'J', 'Int', 'Long'):
        t = P().fresh('whole', X.I); rng = X.in32(t) if f in ('I', 'Int') else X.in64(t)
        P().assume(z3.ToReal(t) == r, rng)
        return t if f == 'I' else Lg(t) if f == 'J' else Any(V.Int(t)) if f == 'Int' else Any(V.Long(t))
    sc = P().fresh('scale', X.I) if L is None else SCALE(L, j, z3.IntVal(0))
    a = Any(V.Dec(r, sc)); touch(a.v); return a
def is_number(f, v, r):
    """v is of form f and the number r"""
    if form(v) != f: return False
    if f in ('I', 'J'):
        t = zi(v); return ent(z3.And(z3.ToReal(t) == r, X.in32(t) if f == 'I' else X.in64(t)))
    k = f; touch(v.v)
    if f == 'Dec': return ent(z3.And(X.isk('Dec', v.v), X.sel('Dec', v.v, 0) == r))
    return ent(z3.And(X.isk(k, v.v), z3.ToReal(X.sel(k, v.v)) == r))
class Const:
    const = True
    def __init__(self, v): self.v = v
    def at(self, j): return self.v
    def match(self, j, v): return same(self.v, v)
    def __repr__(self): return 'const'
class Affine:
    const = False
    def __init__(self, v, lo): self.v, self.lo, self.f = v, lo, form(v)
    def at(self, j):
        t = norm(z3.simplify(zi(self.v) + (zi(j) - zi(self.lo))))
        P().assume(X.in32(zi(t)) if self.f == 'I' else X.in64(zi(t)))
        return t if self.f == 'I' else Lg(t)
    def match(self, j, v):
        if form(v) != self.f: return False
        t = zi(self.v) + (zi(j) - zi(self.lo))
        return ent(z3.And(zi(v) == t, X.in32(t) if self.f == 'I' else X.in64(t)))
    def __repr__(self): return 'affine'
class Ghost:
    const = False
    def __init__(self, f, L, what): self.f, self.L, self.what = f, L, what; self.F = {'sum': PSUM, 'min': PMIN, 'max': PMAX}[what]
    def at(self, j): use(self.L, self.what); return number(self.f, self.F(self.L, zi(j)), self.L, zi(j))
    def match(self, j, v):
        use(self.L, self.what)
        if self.what != 'sum' and not ent(zi(j) >= 1): return False
        return is_number(self.f, v, self.F(self.L, zi(j)))
    def __repr__(self): return self.what
class BestN:
    const = False
    def __init__(self, L): self.L = L
    def at(self, j): use(self.L, 'mode'); return BESTN(self.L, zi(j))
    def match(self, j, v): use(self.L, 'mode'); return form(v) == 'I' and ent(zi(v) == BESTN(self.L, zi(j)))
    def __repr__(self): return 'best count'
class Best:
    const = False
    def __init__(self, L): self.L = L
    def at(self, j):
        use(self.L, 'mode'); b = BEST(self.L, zi(j)); P().index(b); return spec.list_at(self.L)(b)
    def match(self, j, v):
        if not isinstance(v, Any): return False
        if conc(j) == 0: return v.v.eq(spec.LV(self.L, z3.IntVal(0)))
        use(self.L, 'mode'); return ent(v.v == spec.LV(self.L, BEST(self.L, zi(j))))
    def __repr__(self): return 'best'
class CountMap(JMap):
    """a map from numbers (BigDecimals without trailing zeros) to how often they are among the first j; what is written stands in d"""
    def __init__(self, L, j):
        JMap.__init__(self, 'java/util/HashMap'); self.L, self.j = L, j; self.unordered = True
    def find(self, k):
        e, v = count_get(self, k)
        return e if e is not None else None if v is None else [k, v]
class Counts:
    const = False
    def __init__(self, L, obj): self.L, self.obj = L, obj
    def at(self, j): use(self.L, 'mode'); return CountMap(self.L, zi(j))
    def match(self, j, v):
        use(self.L, 'mode')
        if not isinstance(v, JMap): return False
        if not isinstance(v, CountMap): return not v.d and ent(zi(j) == 0)
        if not ent(zi(j) == v.j + 1) : return False
        x = NUM(self.L, v.j)
        if len(v.d) != 1: return False
        k, c = v.d[0]
        if not is_key(k) or not isinstance(c, Any) or form(c) != 'Int': return False
        return ent(z3.And(X.sel('Dec', k.v, 0) == x, X.sel('Int', c.v) == CNT(self.L, v.j, x) + 1))
    def __repr__(self): return 'counts'
def is_key(k):
    """a BigDecimal without trailing zeros: equal keys are equal numbers"""
    if form(k) != 'Dec': return False
    touch(k.v)
    return ent(X.sel('Dec', k.v, 1) == X.sscale(X.sel('Dec', k.v, 0)))
def count_get(mp, k):
    """the entry of a key: (position in d or None, value or None)"""
    if not is_key(k): raise Unsupported('a key of a counting map')
    r = X.sel('Dec', k.v, 0)
    for e in mp.d:
        if P().branch(X.sel('Dec', e[0].v, 0) == r): return e, e[1]
    x = NUM(mp.L, mp.j)
    if not ent(r == x): raise Unsupported('a key of a counting map')
    c = CNT(mp.L, mp.j, x)
    if P().branch(c == 0): return None, None
    P().assume(X.in32(c))
    return None, jvm.box_int(c)
def same(a, b):
    if a is b: return True
    if isinstance(a, Any) and isinstance(b, Any):
        if a.v.eq(b.v): return True
        return ent(a.v == b.v)
    if a is None and isinstance(b, Any): return X.is_cons(b.v, 'Null')
    if isinstance(a, Lg) and isinstance(b, Lg): return ent(zi(a) == zi(b))
    if isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)): return ent(zi(a) == zi(b))
        return False
    if isinstance(a, (int, z3.ArithRef)) and isinstance(b, (int, z3.ArithRef)): return ent(zi(a) == zi(b))
    return False
def candidates(v, lo):
    f = form(v); out = []
    Ls = lists()
    if f in ('I', 'J'): out.append(Affine(v, lo))
    if f in ('I', 'J', 'Dec', 'Int', 'Long'):
        for L in Ls: out += [Ghost(f, L, w) for w in ('sum', 'min', 'max')]
        if f == 'I': out += [BestN(L) for L in Ls]
    if isinstance(v, Any): out += [Best(L) for L in Ls]
    if isinstance(v, JMap) and not isinstance(v, CountMap): out += [Counts(L, v) for L in Ls]
    out = [t for t in out if t.match(lo, v)]
    if not isinstance(v, JMap) or isinstance(v, CountMap): out.append(Const(v))
    return out

def induct(it, n, lo, init, body, what, fixed=None):
    """finds an invariant. body(j, values) -> ('back', new values) | anything else (a tuple).  Returns (templates, Gen); the outcomes of the Gen
    are ('back',), ('split', values) (a constant of the invariant changes) or what the body gave"""
    opts = []
    for i, v in enumerate(init): opts.append([fixed[i]] if fixed and fixed.get(i) is not None else candidates(v, lo))
    import itertools
    tried = 0
    for ts in itertools.product(*opts):
        tried += 1
        if tried > 40: break
        def f(j, ts=ts):
            o = body(j, [t.at(j) for t in ts])
            if o[0] != 'back': return o
            changed = False
            for t, v in zip(ts, o[1]):
                if t.match(j + 1, v): continue
                if not t.const: raise NoTemplate()
                changed = True
            return ('split', tuple(o[1])) if changed else ('back',)
        nev, nsub, nap, nf = len(P().events), P().subs, len(P().appended), len(P().foralls)
        try: g = Gen(n, f, what, lo)
        except NoTemplate: del P().events[nev:]; continue
        if g.ret and not any(o.val[0] == 'back' for o in g.ret) and any(o.val[0] == 'split' for o in g.ret): del P().events[nev:]; continue
        return ts, g
    raise NoTemplate()

# ---------------------------------------------------------------- folds
def fold(it, s, args):
    q = seqs.forced(it, s, 'reduce')
    if q.items is not None: return NotImplemented
    n = zi(q.n)
    if len(args) == 1:
        if P().branch(n == 0): return seqs.M().none()
        P().index(z3.IntVal(0)); acc, lo, f = q.at(z3.IntVal(0)), z3.IntVal(1), args[0]
    else:
        acc, lo, f = args[0], z3.IntVal(0), args[1]
        if P().branch(n == 0): return acc
    # the first elements one by one while no invariant fits
    for k in range(3):
        try: ts, g = induct(it, n, lo, [acc], lambda j, vs: ('back', [it.apply(f, vs[0], q.at(j))]), 'fold')
        except NoTemplate:
            if P().branch(n == lo): break
            P().index(lo); acc = it.apply(f, acc, q.at(lo)); lo = z3.simplify(lo + 1); continue
        back = [o for o in g.ret if o.val[0] == 'back']; split = [o for o in g.ret if o.val[0] == 'split']
        if split: raise Unsupported('reduce of unknown length')
        i, r = g.first([back, g.exc])
        if i == 1: raise r
        acc = ts[0].at(n); break
    else: raise Unsupported('reduce of unknown length')
    if len(args) == 1:
        if it.isnull(acc): it.npe('reduce')
        return seqs.M().some(acc)
    return acc
seqs.REDUCE.append(fold)

def list_id(it, fn, n):
    """the list whose numbers a sequence holds, as (L, form of the elements)"""
    for L in lists():
        if not ent(zi(n) == spec.LN(L)): continue
        use(L, 'num')
        fs = set()
        def f(j):
            x = fn(j); k = form(x); fs.add(k)
            return k in ('I', 'J', 'Int', 'Long', 'Dec') and is_number(k, x, NUM(L, j))
        g = Gen(n, f, 'same')
        if not g.exc and g.ret and all(o.val is True for o in g.ret) and len(fs) == 1: return L, fs.pop()
    return None
def sort_list(it, seq, natural):
    if not natural or seq.items is not None: return None
    r = list_id(it, seq.fn, seq.n)
    if r is None: return None
    L, k = r
    use(L, 'sorted')
    sc = z3.Function('sortscale', X.I, X.I, X.I)
    def at(j):
        j = zi(j); t = srt_at(L, j)
        if k == 'Dec': a = Any(V.Dec(t, sc(L, j))); touch(a.v); return a
        return number(k, t)
    return Seq(n=seq.n, fn=at)
seqs.SORTED.append(sort_list)

# ---------------------------------------------------------------- loops of the code
def liveness(m):
    """local variables that are read before they are written, at each instruction"""
    if '$live' in m: return m['$live']
    code = m['code']; n = len(code)
    succ, uses, defs = [], [], []
    for i, ins in enumerate(code):
        op = ins[0]; s = []
        if op.startswith('IF'): s = [i + 1, ins[2]]
        elif op == 'GOTO': s = [ins[2]]
        elif op in ('TABLESWITCH', 'LOOKUPSWITCH'): s = list(ins[2].values()) + [ins[3]]
        elif op.endswith('RETURN') or op == 'ATHROW': s = []
        else: s = [i + 1]
        for a, b, h, t in m['tries']:
            if a <= i < b: s.append(h)
        succ.append([x for x in s if isinstance(x, int) and x < n])
        uses.append({ins[2]} if op in ('ILOAD', 'LLOAD', 'ALOAD', 'DLOAD', 'FLOAD', 'IINC') else set())
        defs.append({ins[2]} if op in ('ISTORE', 'LSTORE', 'ASTORE', 'DSTORE', 'FSTORE') else set())
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            o = set()
            for s in succ[i]: o |= live[s]
            new = uses[i] | (o - defs[i])
            if new != live[i]: live[i] = new; ch = True
    m['$live'] = live
    return live
def written(m, pc, end):
    return {ins[2] for ins in m['code'][pc:end+1] if ins[0] in ('ISTORE', 'LSTORE', 'ASTORE', 'DSTORE', 'FSTORE', 'IINC')}
def sizes(loc, live, it):
    """lengths of the lists in sight: what an index may run to"""
    out = []
    def add(t):
        if t is None or isinstance(t, int): return
        if conc(t) is not None: return
        if not any(t.eq(o) for o in out): out.append(t)
    def look(x, d):
        if isinstance(x, (JList, JArr, Iter)): add(x.seq.n if x.seq.items is None else None)
        elif isinstance(x, Any):
            k = X.kinds_of(x.v)
            for kk in ('Coll', 'Arr'):
                if k == [kk]: add(X.clen(X.sel(kk, x.v)))
        elif isinstance(x, z3.ArithRef): add(x)
        elif isinstance(x, Obj) and d and isinstance(getattr(x, 'f', None), dict):
            for y in x.f.values(): look(y, d - 1)
    for v in sorted(k for k in loc if isinstance(k, int)): look(loc[v], 1)
    return out
TRIES = 4
class Unknown(Exception): pass
def poisoned(why):
    def at(j): raise Unsupported(why)
    return Seq(n=P().fresh('unknown', X.I), fn=at)
def loop(it, cls, m, pc, end, loc, st):
    if it.bound is not None or st: return None
    live = liveness(m)[pc]
    wr = written(m, pc, end)
    ctrl = []
    for v in sorted(live):
        x = loc.get(v)
        if isinstance(x, Iter) and x.seq.items is None and x.seq.fn is not None and x.owner is P() and v not in wr: ctrl.append((v, 'iter', zi(x.seq.n), zi(x.k)))
    if not ctrl:
        for v in sorted(live & wr):
            x = loc.get(v)
            if form(x) == 'I' and any(i[0] == 'IINC' and i[2] == v and i[3] == 1 for i in m['code'][pc:end+1]):
                for n in sizes({k: y for k, y in loc.items() if k in live and k != v}, live, it): ctrl.append((v, 'int', n, zi(x)))
    if not ctrl: return None
    key = '$tries%d' % pc
    tries = loc.get(key, 0)
    ran = False
    for v, kind, n, lo in ctrl:
        if ent(lo >= n): continue
        if not ent(lo <= n) and not P().branch(lo < n): continue
        ran = True
        r = attempt(it, cls, m, pc, end, loc, v, kind, n, lo, sorted((live & wr) - {v}), live)
        if r is not None: return r
    if not ran: return None
    # no invariant fits: one iteration by itself
    loc[key] = tries + 1
    if tries + 1 > TRIES: raise Unsupported('no invariant found for the loop in %s.%s' % (cls.split('/')[-1], m['name']))
    return None
def attempt(it, cls, m, pc, end, loc, v, kind, n, lo, vs, live):
    import interp
    x0 = loc[v]
    # maps the loop may fill
    maps = [k for k in sorted(live) if k not in vs and isinstance(loc.get(k), JMap) and not isinstance(loc[k], CountMap) and loc[k].owner is P()]
    def run(j, vals, usemaps):
        l2 = {k: y for k, y in loc.items() if k in live}
        if kind == 'iter': c = Iter(x0.seq); c.k = norm(j); l2[v] = c
        else: l2[v] = norm(j); P().assume(X.in32(zi(j)))
        for k, y in zip(vs, vals): l2[k] = y
        for k, y in zip(usemaps, vals[len(vs):]): l2[k] = y
        s2 = []
        o = interp.run_from(it, cls, m, l2, s2, pc, (pc, end))
        if o[0] == 'back':
            if s2: raise Unsupported('values on the stack over a loop')
            c = l2.get(v)
            ok = isinstance(c, Iter) and ent(zi(c.k) == zi(j) + 1) if kind == 'iter' else form(c) == 'I' and ent(zi(c) == zi(j) + 1)
            if not ok: raise NoTemplate()
            return ('back', [l2.get(k) for k in vs] + [l2.get(k) for k in usemaps])
        if o[0] == 'exit':
            lv = liveness(m)[o[1]]
            return ('exit', o[1], tuple((k, y) for k, y in sorted((a, b) for a, b in l2.items() if isinstance(a, int)) if k in lv or k == v), tuple(s2))
        return o
    res = None
    for um in ([maps, []] if maps else [[]]):
        init = [loc.get(k) for k in vs] + [loc[k] for k in um]
        try: res = induct(it, n, lo, init, lambda j, vals: run(j, vals, um), 'loop'); break
        except NoTemplate: continue
    if res is None: return None
    ts, g = res
    ret = lambda k: [o for o in g.ret if o.val[0] == k]
    back, split, other = ret('back'), ret('split'), ret('exit') + ret('return')
    apps = seqs.appends(g)
    if apps and split: return None
    i, r = g.first([back, split, other, g.exc])
    if i == 3: raise r
    allv = vs + um
    def setc(t):
        if kind == 'iter':
            x0.k = norm(t)
        else: loc[v] = norm(t)
    if i == 0:
        for k, t in zip(allv, ts): loc[k] = t.at(n)
        seqs.emit_all(it, g, apps, back)
        setc(z3.simplify(n)); P().index(z3.simplify(n - 1))
        return pc
    for l in apps.values():
        if seqs.writes_appended(l): raise Unsupported('a loop that is left while it fills a list')
        seqs.M().seq_set(it, l, poisoned('a list that was being filled when its loop was left'))
    if i == 1:
        # w: the iteration that changed a constant
        w = P().ghost['w']
        for k, t, y in zip(allv, ts, r[1]): loc[k] = t.at(w + 1) if not t.const else y
        setc(z3.simplify(w + 1))
        loc['$split'] = loc.get('$split', 0) + 1
        if loc['$split'] > 3: raise Unsupported('no invariant found for the loop in %s.%s' % (cls.split('/')[-1], m['name']))
        return pc
    if r[0] == 'return': return r
    w = P().ghost['w']
    st2 = list(r[3])
    own = dict(r[2])
    for k, y in own.items(): 
        if k != v: loc[k] = y
        elif kind != 'iter': loc[k] = y
        else: setc(own[v].k if isinstance(own[v], Iter) else w + 1)
    return ('goto', r[1], st2)
seqs.LOOPS.append(loop)
