#!/usr/bin/env -S python3-vt -O
"""Tests the verifier itself: the methods of Conf.java are executed symbolically for all arguments and by the JVM on given ones.
   UNSOUND   no path of the verifier admits what the JVM did          LOOSE  a path admits something else as well
   UNSUPPORTED  the verifier does not know a construct.   usage: conform.py [-v] [names...]"""
import sys, os, json, subprocess, tempfile, shutil, time, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
sys.setrecursionlimit(20000)
import z3
import build
from fractions import Fraction
import vals as X
from vals import V
import core, jvm, interp, models, seqs, spec, contracts, verify, loops
from jvm import Any, Interp, touch
from core import P, JavaExc, Unsupported

def prepare(d):
    cls, tool = d + '/cls', d + '/tool'; os.makedirs(cls); os.makedirs(tool)
    build.run([build.JAVAC, '-g', '-Xlint:none', '-nowarn', '-d', cls, HERE + '/Conf.java'])
    build.run([build.JAVAC, '-nowarn', '-cp', ':'.join(build.ASM), '-d', tool, HERE + '/../engine/Dump.java'])
    build.run([build.JAVA, '-cp', ':'.join(build.ASM) + ':' + tool, 'Dump', cls, d + '/dump.json'])
    out = build.run([build.JAVA, '-cp', cls, 'conf.Conf', '60'])
    return json.load(open(d + '/dump.json')), [json.loads(l) for l in out.splitlines()]

def rat(s): f = Fraction(s); return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
N = [0]
def value(e):
    """(term, facts) of a value the JVM printed"""
    k = e[0]
    if k == 'Null': return V.Null, []
    if k == 'Bool': return V.Bool(e[1] == 'true'), []
    if k in ('Int', 'Long', 'Date'): return getattr(V, k)(int(e[1])), []
    if k == 'Dec': return V.Dec(rat(e[1]), z3.IntVal(e[2])), []
    if k == 'Str':
        s = X.sconst(e[1]); return V.Str(s), X.const_facts(e[1], s) + order_facts()
    if k == 'Dbl':
        N[0] += 1; d = z3.Const('dbl_%s' % (e[1] if e[1] else 'nf%d' % N[0]), X.D)
        if e[1] is None: return V.Dbl(d), [z3.Not(X.fin(d))]
        return V.Dbl(d), [X.fin(d), X.exact(d) == rat(e[1]), X.printed(d) == rat(e[2]), X.printedscale(d) == e[3]]
    if k == 'Coll':
        N[0] += 1; i = z3.IntVal(100 + N[0]); fs = [X.clen(i) == len(e[1])]
        for n, x in enumerate(e[1]):
            t, f = value(x); fs += f + [X.celem(i, z3.IntVal(n)) == t]
        return V.Coll(i), fs
    return None, []
def order_facts():
    ss = sorted(X._consts, key=lambda s: [ord(c) for c in s])
    return [X.srank(X._consts[a]) < X.srank(X._consts[b]) for a, b in zip(ss, ss[1:])]

def run(dump, name, cases):
    m = [m for m in dump['classes']['conf/Conf']['methods'] if m['name'] == name][0]
    ks = name.rsplit('_', 1)[1]
    KD = {'I': ['Int'], 'L': ['Long'], 'D': ['Dec'], 'F': ['Dbl'], 'S': ['Str'], 'B': ['Bool'], 'T': ['Date'], 'O': ['Int', 'Long', 'Dec', 'Str', 'Bool', 'Date', 'Dbl'], 'C': ['Coll'], 'Q': ['Coll']}
    it = Interp(dump); it.env = spec.Env(it, z3.IntVal(1))
    args = [z3.Const('a%d' % i, V) for i in range(len(ks))]
    paths = []
    res = {'unsound': [], 'loose': [], 'unsupported': None, 'ok': 0, 'open': 0}
    if name.endswith(('_Q', '_C')):
        pass
    def body(p):
        for a, k in zip(args, ks):
            p.assume(X.isany(KD[k], a))
            p.kinds[a.get_id()] = (frozenset(KD[k]), a)
            touch(a)
            if k in 'CQ':
                j = z3.Int('jj'); el = X.celem(X.sel('Coll', a), j)
                ok = X.isk('Int', el) if k == 'Q' else z3.Not(X.isk('Null', el))
                p.ghost['elemkinds'] = True
                p.forall(j, [z3.Implies(z3.And(j >= 0, j < X.clen(X.sel('Coll', a))), ok)])
        return it.invoke('conf/Conf', m, [Any(a) for a in args])
    def after(r):
        fs = r.path.all_pc()
        if r.kind == 'exc': paths.append((fs, 'exc', r.val.cls, getattr(r.val, 'opaque', None), r.path))
        else:
            v = r.val
            if m['desc'].endswith('Object;') and not isinstance(v, Any) and v is not None:
                try: v = Any(verify.val_term(v))
                except Unsupported as e: raise Unsupported('result %r' % (v,))
            t = V.Null if v is None else v.v
            touch(t)
            paths.append((r.path.all_pc(), 'ret', t, None, r.path))
    core.DEADLINE[0] = time.time() + 60
    try: core.explore(body, after=after)
    except Unsupported as e: res['unsupported'] = str(e)[:200]; return res
    except Exception as e:
        import traceback; res['unsupported'] = 'INTERNAL %r %s' % (e, traceback.format_exc()[-500:]); return res
    finally: core.DEADLINE[0] = None
    for c in cases:
        fs = []; terms = []
        for a, e in zip(args, c[1]):
            t, f = value(e); terms.append(t); fs += f + [a == t]
        rv, rf = value(c[3]) if c[2] == 'ret' else (None, [])
        found, other, unk = False, None, False
        for pc, kind, v, opq, path in paths:
            s = z3.Solver(); s.set('timeout', 5000)
            # universal facts of the path at the elements of the collections
            inst = []
            for k, gs in path.foralls:
                for n in range(5): inst += [z3.substitute(g, (k, z3.IntVal(n))) for g in gs]
            s.add(pc); s.add(fs); s.add(inst)
            if rv is not None: s.add(rf)
            q = s.check()
            if q == z3.unsat: continue
            if kind == 'exc':
                same = c[2] == 'exc' and (v == c[3] or opq is not None or it_sub(c[3], v))
                if same: found = found or q == z3.sat; unk = unk or q == z3.unknown
                else: other = other or 'exception ' + v
                continue
            if c[2] == 'exc': other = other or 'value %s' % z3.simplify(v); continue
            if rv is None: found = True; continue
            eq = v == rv
            if X.kind_syn(rv) == 'Dbl': eq = z3.And(X.isk('Dbl', v), X.printed(X.sel('Dbl', v)) == X.printed(X.sel('Dbl', rv)))
            s.push(); s.add(eq); q = s.check(); s.pop()
            if q == z3.sat: found = True
            elif q == z3.unknown: unk = True
            s.push(); s.add(z3.Not(eq)); q = s.check()
            if q == z3.sat:
                mo = s.model(); other = other or 'value %s' % mo.eval(v)
            s.pop()
        what = '%s -> %s' % (json.dumps(c[1]), json.dumps(c[2:]))
        if not found and not unk: res['unsound'].append(what + (' (verifier: %s)' % other if other else ' (verifier: no path)'))
        elif not found: res['open'] += 1
        elif other:
            rough = set()
            for pc, kind, v, opq, path in paths: rough |= set(path.rests_on(v if kind == 'ret' else z3.BoolVal(True)))
            res['loose'].append(what + ' (verifier also: %s)' % str(other)[:120] + (' [approximated: %s]' % ', '.join(rough) if rough else ''))
        else: res['ok'] += 1
    return res
def it_sub(a, b): return False

def work(a):
    dump, name, cases = a
    t = time.time()
    try: r = run(dump, name, cases)
    except Exception as e:
        import traceback; r = {'unsound': [], 'loose': [], 'unsupported': 'INTERNAL %s' % traceback.format_exc()[-700:], 'ok': 0, 'open': 0}
    r['t'] = time.time() - t
    return name, r
def main():
    av = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    d = tempfile.mkdtemp(prefix='conform')
    try: dump, cases = prepare(d)
    finally: shutil.rmtree(d)
    by = {}
    for c in cases: by.setdefault(c[0], []).append(c)
    if av: by = {k: v for k, v in by.items() if k in av or k.rsplit('_', 1)[0] in av}
    global DUMP
    tot = {'ok': 0, 'unsound': 0, 'loose': 0, 'unsupported': 0, 'open': 0}
    with multiprocessing.Pool(int(os.environ.get('JOBS', '7')), maxtasksperchild=8) as pool:
        for name, r in pool.imap_unordered(work, [(dump, k, v) for k, v in sorted(by.items())], chunksize=1):
            tot['ok'] += r['ok']; tot['open'] += r['open']; tot['unsound'] += len(r['unsound']); tot['loose'] += len(r['loose']); tot['unsupported'] += bool(r['unsupported'])
            if r['unsupported']: print('UNSUPPORTED', name, r['unsupported'])
            for u in r['unsound'][:None if verbose else 3]: print('UNSOUND', name, u)
            if r['loose']: print('LOOSE', name, len(r['loose']), 'of', len(by[name]), r['loose'][0] if not verbose else '\n   '.join([''] + r['loose']))
            if r['open']: print('OPEN', name, r['open'])
            if r['t'] > 60: print('SLOW', name, '%.0f s' % r['t'])
            sys.stdout.flush()
    print(len(by), 'methods;', ', '.join('%d %s' % (v, k) for k, v in tot.items()))
    sys.exit(1 if tot['unsound'] else 0)
if __name__ == '__main__': main()
