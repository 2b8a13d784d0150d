"""Path exploration: every path of a deterministic Python function over symbolic values is found by replaying it with recorded
decisions; a branch is decided by the solver under the path condition.  Sub-explorations (lambda and loop bodies at a generic index)
are nested."""
import re, time, z3
import vals as X

class Unsupported(Exception): pass
class Infeasible(Exception): pass
class JavaExc(Exception):
    def __init__(self, cls, msg=None, obj=None):
        Exception.__init__(self, cls); self.cls, self.msg, self.obj = cls, msg, obj

class Stats: pass
STATS = Stats(); STATS.queries = 0; STATS.time = 0.0; STATS.unknown = 0; STATS.paths = 0
TIMEOUT = 4000
DEADLINE = [None]
SLOW = [0]

FEAS = 400
def check(solver, *extra, quick=False, ms=None):
    STATS.queries += 1
    solver.set('timeout', ms or (FEAS if quick else TIMEOUT))
    if DEADLINE[0] and time.time() > DEADLINE[0]: raise Unsupported('time budget of the obligation used up')
    t = time.time()
    r = solver.check(*extra)
    dt = time.time() - t
    STATS.time += dt
    if SLOW[0] and dt > SLOW[0] and r == z3.unknown:
        q = z3.Solver(); q.add(solver.assertions()); q.add(list(extra)); open('/tmp/x/slow%d.smt2' % STATS.unknown, 'w').write(q.to_smt2())
    if SLOW[0] and dt > SLOW[0]: print('slow %.2f %s' % (dt, r), [str(z3.simplify(e))[:300] for e in extra], len(solver.assertions()), flush=True)
    if r == z3.unknown: STATS.unknown += 1
    return r

def new_solver(timeout=None):
    s = z3.SolverFor('QF_UFDTLIRA') if False else z3.Solver()
    s.set('timeout', timeout or TIMEOUT)
    return s

INFO = {}        # formula id -> (formula, what can be looked up, kinds)
SIMP = {}
def simp(f):
    r = SIMP.get(f.get_id())
    if r is None: r = SIMP[f.get_id()] = (f, z3.simplify(f))
    return r[1]
def digest(f, out):
    if z3.is_and(f):
        for c in f.children(): digest(c, out)
        return
    g = z3.simplify(f)
    if z3.is_and(g):
        for c in g.children(): digest(c, out)
        return
    neg = False
    while z3.is_not(g): g = g.arg(0); neg = not neg
    out.append((g.get_id(), (not neg, g)))
    if not neg and z3.is_eq(g):
        h = z3.simplify(g.arg(1) == g.arg(0)); out.append((h.get_id(), (True, h)))
SHAPE = {}
def shape(g):
    """(id, negated, 'and' | 'or' | None, children) of a formula"""
    r = SHAPE.get(g.get_id())
    if r is None:
        f, neg = g, False
        while z3.is_not(f): f = f.arg(0); neg = not neg
        op = 'and' if z3.is_and(f) else 'or' if z3.is_or(f) else None
        r = SHAPE[g.get_id()] = (g, (f.get_id(), neg, op, [shape(c) for c in f.children()] if op else None))
    return r[1]
# functions of which the models know little
ROUGH = {'charat': 'charAt', 'strim': 'trim', 'replaced': 'replace', 'mapempty': 'isEmpty of a map of the data', 'precision': 'precision', 'isdouble': 'parseDouble', 'doubleof': 'parseDouble', 'floordiv': 'floorDiv', 'indexof': 'indexOf', 'lastindexof': 'lastIndexOf', 'eqic': 'equalsIgnoreCase', 'contains': 'contains', 'vhash': 'hashCode',
         'ehash': 'hashCode', 'decodes': 'decode', 'decoded': 'decode'}
class Path:
    cur = None
    def __init__(self, prefix, parent=None, label=''):
        self.prefix, self.parent, self.label = prefix, parent, label
        self.trail = []                  # list of (choice, number of options)
        self.pc = []
        self.nfresh = 0
        self.subs = 0
        self.facts = set()
        self.foralls = list(parent.foralls) if parent else []   # (bound constant, facts), instantiated at every index term
        self.nforalls0 = len(self.foralls)
        self.freshes = []
        self.decided = []
        self.sbs = []                    # substitutions in force: what is assumed or decided is meant at another index
        self.indices = list(parent.indices) if parent else []
        self.solver = new_solver()
        self.depth = parent.depth + 1 if parent else 0
        self.journal = []
        self.ghost = dict(parent.ghost) if parent else {}
        self.events = []
        self.appended = []               # what a loop body adds to lists of the enclosing call
        self.touched = set(parent.touched) if parent else set()
        self.kinds = dict(parent.kinds) if parent else {}
        self.known = dict(parent.known) if parent else {}
        if parent:
            for f in parent.all_pc(): self.solver.add(f)
    def all_pc(self): return (self.parent.all_pc() if self.parent else []) + self.pc
    def fresh(self, name, sort):
        self.nfresh += 1
        c = z3.Const('%s%s!%d' % (self.label, name, self.nfresh), sort)
        self.freshes.append(c)
        return c
    def approx(self, name, sort):
        """a constant for something of which less is known than is true: a refutation that rests on it is none"""
        return self.fresh('~' + name, sort)
    def rests_on(self, f):
        """the approximations in a formula and in what was decided on the path"""
        out, seen, todo = set(), set(), [f] + [c for p in self.lineage() for c in p.decided]
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_app(t):
                n = t.decl().name() if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else ''
                if '~' in n: out.add(re.sub(r'[!@].*', '', n.split('~')[1]))
                elif n in ROUGH: out.add(ROUGH[n])
                todo += t.children()
        return sorted(out)
    def lineage(self): return [self] + (self.parent.lineage() if self.parent else [])
    def sb(self, f):
        for pairs in reversed(self.sbs): f = z3.substitute(f, *pairs)
        return f
    def assume(self, *fs):
        for f in fs:
            if f is True: continue
            if self.sbs: f = self.sb(f)
            k = f.get_id()
            if k in self.facts: continue
            self.facts.add(k)
            if z3.is_true(f): continue
            self.pc.append(f); self.solver.add(f)
            self.remember(f)
    def remember(self, f):
        """facts that can be looked up without the solver"""
        r = INFO.get(f.get_id())
        if r is None:
            out = []; digest(f, out); ks = {}; learn(ks, f)
            r = INFO[f.get_id()] = (f, out, list(ks.items()))
        for i, v in r[1]: self.known[i] = v
        for i, (s, t) in r[2]: self.kinds[i] = (self.kinds[i][0] & s if i in self.kinds else s, t)
    def lookup(self, g):
        """True or False when g or its negation is among the facts"""
        return self.look(shape(g), {})
    def look(self, t, memo):
        i, neg, op, cs = t
        r = self.known.get(i)
        if r is not None: return r[0] != neg
        if op is None: return None
        v = memo.get(i, 0)
        if v == 0:
            a = op == 'and'; v = a
            for c in cs:
                w = self.look(c, memo)
                if w is (not a): v = not a; break
                if w is None: v = None
            memo[i] = v
        return None if v is None else v != neg
    def index(self, j):
        """makes j a term at which the universal facts are used"""
        if self.sbs: j = self.sb(j)
        if any(j.eq(o) for o in self.indices): return
        self.indices.append(j)
        for k, fs in list(self.foralls): self.raw_assume([z3.substitute(f, (k, j)) for f in fs])
    def forall(self, k, fs):
        """the facts hold with any integer for the constant k"""
        if self.sbs: fs = [self.sb(f) for f in fs]
        self.foralls.append((k, fs))
        for j in list(self.indices): self.raw_assume([z3.substitute(f, (k, j)) for f in fs])
    def raw_assume(self, fs):
        saved, self.sbs = self.sbs, []
        try: self.assume(*fs)
        finally: self.sbs = saved
    def choose(self, conds, what=''):
        """decides which of the conditions holds; they are exhaustive; returns its index"""
        pos = len(self.trail)
        cs = [simp(self.sb(c) if self.sbs else c) if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c)) for c in conds]
        live = []
        for i, c in enumerate(cs):
            if z3.is_true(c): return i
            if z3.is_false(c): continue
            k = self.lookup(c)
            if k is True: return i
            if k is None: live.append(i)
        if not live: raise Infeasible()
        if pos < len(self.prefix):
            i = self.prefix[pos]
            self.trail.append(i); self.decided.append(cs[i]); self.raw_assume([cs[i]]); return i
        ok = []
        for i in live:
            if i == live[-1] and not ok: ok.append(i); break
            if check(self.solver, cs[i], quick=True) != z3.unsat: ok.append(i)
        if not ok: raise Infeasible()
        for i in ok[1:]: self.worklist.append(self.trail + [i])
        self.trail.append(ok[0])
        if len(ok) > 1: self.decided.append(cs[ok[0]])
        self.raw_assume([cs[ok[0]]])
        return ok[0]
    def fork(self, b):
        """a fresh constant is either true or false"""
        pos = len(self.trail)
        if pos < len(self.prefix): i = self.prefix[pos]
        else: i = 0; self.worklist.append(self.trail + [1])
        self.trail.append(i); self.raw_assume([z3.Not(b) if i else b])
        return i == 0
    def branch(self, c):
        if c is True or c is False: return c
        if isinstance(c, int): return c != 0
        return self.choose([c, z3.Not(c)]) == 0
    def entails(self, c, ms=None):
        """whether the path condition implies c (None if the solver does not know)"""
        if self.sbs: c = self.sb(c)
        c = simp(c)
        k = self.lookup(c)
        if k is not None or z3.is_true(c) or z3.is_false(c): return z3.is_true(c) if k is None else k
        r = check(self.solver, z3.Not(c), ms=ms)
        return True if r == z3.unsat else (False if r == z3.sat else None)

ALLK = frozenset(X.KINDS)
def recog(f):
    """(term, kind) of a recognizer"""
    if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DT_IS:
        t = f.arg(0)
        if t.sort() == X.V: return t, f.decl().params()[0].name()
    return None
def kinds_in(f):
    """(term, kinds): f says exactly that the term has one of the kinds"""
    r = recog(f)
    if r: return r[0], frozenset([r[1]])
    if z3.is_not(f):
        r = kinds_in(f.arg(0))
        return (r[0], ALLK - r[1]) if r else None
    if z3.is_or(f) or z3.is_and(f):
        out = None
        for c in f.children():
            r = kinds_in(c)
            if r is None: return None
            if out is None: out = r
            elif not out[0].eq(r[0]): return None
            else: out = (out[0], out[1] | r[1] if z3.is_or(f) else out[1] & r[1])
        return out
    return None
def learn(kinds, f):
    if z3.is_and(f):
        for c in f.children(): learn(kinds, c)
        return
    r = kinds_in(f)
    if r is None: return
    k = r[0].get_id()
    kinds[k] = (kinds[k][0] & r[1] if k in kinds else r[1], r[0])
def kinds_of(v):
    p = Path.cur
    if p is None or p.sbs: return None
    r = p.kinds.get(v.get_id())
    return r[0] if r else None
X.KINDSOF[0] = kinds_of
def P(): return Path.cur

class Result:
    def __init__(self, path, kind, val):
        self.path, self.kind, self.val = path, kind, val     # kind: 'ret' | 'exc' | 'unsupported'
        self.pc = path.pc

MAXPATHS = 20000
def explore(fn, setup=None, label='', parent=None, after=None, sub=False):
    """all paths of fn; setup(path) adds the precondition. after(result) runs while the path is still current."""
    out = []
    work = [[]]
    saved = Path.cur
    n = 0
    try:
        while work:
            prefix = work.pop()
            n += 1
            if n > MAXPATHS: raise Unsupported('more than %d paths' % MAXPATHS)
            p = Path(prefix, parent, label)
            p.worklist = work
            Path.cur = p
            STATS.paths += 1
            try:
                if setup: setup(p)
                try:
                    v = fn(p)
                    r = Result(p, 'ret', v)
                except JavaExc as e:
                    r = Result(p, 'exc', e)
                if after: after(r)
                out.append(r)
            except Infeasible:
                continue
            finally:
                for undo in reversed(p.journal): undo()
                if p.trail and False: pass
        # a path whose condition the solver only finds contradictory later contributes nothing
        return out
    finally:
        Path.cur = saved
