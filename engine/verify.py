"""Obligations: the entries of the library against their specification, and the lemma contracts, each as a job of its own."""
import time, traceback, z3
import vals as X
from vals import V
import core
from core import P, JavaExc, Unsupported, Infeasible, STATS
from jvm import Any, Obj, SNode, touch, conc, text, zi
import models, seqs, spec, contracts
from spec import SpecFail, Unspecified, Lenient, PK
from contracts import Call, LEMMAS, try_outcome

class Ob:
    """result of one obligation: status proved | refuted | unknown"""
    def __init__(self, name, status, detail='', model=None, hints=None): self.name, self.status, self.detail, self.model, self.hints = name, status, detail, model, hints

def bool_term(v):
    if isinstance(v, Any): return X.isk('Bool', v.v), (X.sel('Bool', v.v))
    if isinstance(v, (bool, int)): return z3.BoolVal(True), z3.BoolVal(bool(v))
    if isinstance(v, z3.BoolRef): return z3.BoolVal(True), v
    if isinstance(v, z3.ArithRef): return z3.BoolVal(True), v != 0
    return z3.BoolVal(False), z3.BoolVal(False)
def val_term(v):
    if isinstance(v, Any): return v.v
    if v is None: return V.Null
    if isinstance(v, bool) or isinstance(v, z3.BoolRef): return V.Bool(v if isinstance(v, z3.BoolRef) else z3.BoolVal(v))
    if isinstance(v, int): return V.Bool(z3.BoolVal(bool(v)))
    if isinstance(v, z3.ArithRef): return V.Bool(v != 0)
    raise Unsupported('the result is no data value: %r' % (v,))

def hint_of(m, v):
    """a value of the model, for the replay"""
    t = m.eval(v, model_completion=True)
    k = X.kind_syn(t)
    if k is None: return None
    def num(x): return m.eval(x, model_completion=True)
    def rat(x):
        r = num(x)
        return '%s/%s' % (r.numerator_as_long(), r.denominator_as_long()) if z3.is_rational_value(r) else None
    if k == 'Null': return ['Null', None]
    if k == 'Bool': return [k, str(t.arg(0))]
    if k in ('Int', 'Long', 'Date', 'DT'): return [k, str(num(t.arg(0)))]
    if k == 'Dec': return [k, rat(t.arg(0)), str(num(t.arg(1)))]
    if k in ('Dbl', 'Flt'):
        f = num(X.fin(t.arg(0)))
        return [k, rat(X.printed(t.arg(0))) if z3.is_true(f) else 'nonfinite']
    if k in ('Str', 'Ver', 'Oth'):
        s = t.arg(0) if k != 'Oth' else X.othstr(t.arg(0))
        d = {'isdec': z3.is_true(num(X.isdec(s))), 'isdate': z3.is_true(num(X.isdate(s))), 'isdt': z3.is_true(num(X.isdt(s))), 'istrue': z3.is_true(num(X.istrue(s))), 'isfalse': z3.is_true(num(X.isfalse(s))), 'isnull': z3.is_true(num(X.isnullword(s)))}
        if d['isdec']: d['dec'] = rat(X.decval(s)); d['scale'] = str(num(X.decscale(s)))
        return [k, d]
    return [k, str(t.arg(0))]
def hints(path, m):
    out = []
    for v in path.ghost.get('values', [])[:40]:
        try:
            h = hint_of(m, v)
            if h and h not in out: out.append(h)
        except Exception: pass
    return out

class Job:
    """one obligation: on every path of the code, its outcome is the one of the specification"""
    def __init__(self, name, pre, code, spec, lemma=False): self.name, self.pre, self.code, self.spec, self.lemma = name, pre, code, spec, lemma

def outcome(f):
    try: return ('ret', f())
    except JavaExc as e: return ('fail', e)

def describe(o):
    if o[0] == 'fail': return 'failure (%s%s)' % (o[1].cls.split('/')[-1], ': ' + str(text(o[1].msg) or '') if isinstance(o[1].msg, Any) else ': %s' % o[1].msg if o[1].msg else '')
    v = o[1]
    if v is THREW: return 'an exception is thrown out of the entry'
    return str(z3.simplify(v.v) if isinstance(v, Any) else v)[:200]
THREW = object()      # the entry threw an exception instead of returning
def agrees(co, so):
    """formula (or bool) that says that the outcome of the code is what the specification admits"""
    if co[1] is THREW: return False
    if so[0] == 'fail': return co[0] == 'fail'
    s = so[1]
    if co[0] == 'fail': return isinstance(s, Lenient) or bool(getattr(s, 'mayfail', False))
    v = co[1]
    if isinstance(s, Lenient): s = s.f
    if isinstance(s, z3.BoolRef) or isinstance(s, bool):
        ok, b = bool_term(v)
        return z3.And(ok, b == s)
    if isinstance(s, z3.DatatypeRef): return val_term(v) == s
    return s.holds(val_term(v))

def run_product(name, pre, code, spec_fn, compare=None, budget=60, frame=None, maxbad=3):
    """explores code and specification together; returns (list of Ob, statistics)"""
    obs = []; st = {'paths': 0, 'proved': 0, 'unspecified': 0, 'kinds': {}}
    bad = []
    def body(p):
        if pre: pre(p)
        co = outcome(code)
        p.ghost['code'] = co
        try: so = outcome(spec_fn)
        except Unspecified: so = None
        return co, so
    def after(r):
        if r.kind != 'ret': raise r.val
        co, so = r.val
        p = r.path
        st['paths'] += 1
        if frame is not None:
            for e in p.events:
                if e[0] == 'frame': frame.add(e[1])
        if so is None: st['unspecified'] += 1; return
        st['kinds'][so[0]] = st['kinds'].get(so[0], 0) + 1
        f = (compare or agrees)(co, so)
        m0 = []
        if compare is None:
            for k, mo in p.ghost.get('mouts', {}).items():
                if mo is not None: m0.append((k, agrees(mo, so)))
        for what, g in [(None, f)] + m0:
            if g is True: continue
            if g is False: g = z3.BoolVal(False)
            g = z3.simplify(g)
            if z3.is_true(g): continue
            c = core.check(p.solver, z3.Not(g))
            if c == z3.unsat: continue
            status = 'refuted' if c == z3.sat else 'unknown'
            if c == z3.unknown:
                # one more attempt with a longer time limit
                s2 = z3.Solver(); s2.set('timeout', 15000); s2.add(p.all_pc()); s2.add(z3.Not(g))
                c = s2.check()
                if c == z3.unsat: continue
                status = 'refuted' if c == z3.sat else 'unknown'
                m = s2.model() if c == z3.sat else None
            else: m = p.solver.model()
            if status == 'refuted':
                rough = p.rests_on(g)
                if rough: status = 'unknown'
            else: rough = []
            h = hints(p, m) if m is not None else None
            d = 'code: %s; specification: %s%s' % (describe(co), describe(so) if so[0] == 'fail' else str(getattr(so[1], '__dict__', so[1]))[:200], ' (%s)' % what[0][1] if what else '')
            if rough: d = 'the models know too little of %s to tell: %s' % (', '.join(rough), d)
            bad.append(Ob(name, status, d, None, h))
            if len(bad) >= maxbad: raise StopEarly()
        st['proved'] += 1
    class StopEarly(Exception): pass
    core.DEADLINE[0] = time.time() + budget
    try:
        core.explore(body, after=after)
    except StopEarly: pass
    except Unsupported as e:
        bad.append(Ob(name, 'unsupported', str(e)))
    except RecursionError:
        bad.append(Ob(name, 'unsupported', 'recursion'))
    except Exception as e:
        bad.append(Ob(name, 'unsupported', 'internal error: %r %s' % (e, traceback.format_exc()[-600:])))
    finally: core.DEADLINE[0] = None
    if not bad: obs.append(Ob(name, 'proved'))
    return obs + bad, st
