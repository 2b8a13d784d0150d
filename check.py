#!/opt/veriftools/pyvenv/bin/python3 -O
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current tree."""
import sys, os, json, time, tempfile, shutil, subprocess, atexit, argparse, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
T0 = time.time()
ap = argparse.ArgumentParser(); ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
A = ap.parse_args()
TIER, SEED, PID = A.tier, int(os.environ.get('VERIF_SEED', '1')), A.property
QUICK = TIER != 'thorough'
SCRATCH = tempfile.mkdtemp(prefix='verif.'); atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
import build as B
REPLAY = HERE + '/replay'; os.makedirs(REPLAY, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
def say(*a):
    if A.v: print('[%6.1f]' % (time.time() - T0), *a, flush=True)
try: dump, CLS, CP = B.build(SCRATCH)
except RuntimeError as e:
    print('the tree does not compile:\n%s' % e); sys.exit(2)
say('built')

# ---------------------------------------------------------------- the harness (bounded, concrete)
HCLS = SCRATCH + '/harness'
def compile_harness():
    os.makedirs(HCLS, exist_ok=True)
    try: B.run([B.JAVAC, '-nowarn', '-encoding', 'UTF-8', '-cp', CP + ':' + CLS, '-d', HCLS] + [HERE + '/harness/' + f for f in sorted(os.listdir(HERE + '/harness')) if f.endswith('.java')])
    except RuntimeError as e: return str(e)[-600:]
    return None
HARNESS_ERROR = compile_harness()
def mine():
    """the constants of the code under test, for the bounded check to try lengths, numbers, texts and names around them"""
    out = []
    for cn, c in dump['classes'].items():
        b = cn.split('/')[-1]
        if b.startswith('BooleanExpression') and 'Evaluator' not in b or '/constant/' in cn: continue
        ms = c['methods']
        for m in (ms.values() if isinstance(ms, dict) else ms):
            for i in m.get('code') or []:
                vs = []
                if i[0] == 'LDC' and isinstance(i[2], list): vs = [tuple(i[2][:2])]
                elif i[0] in ('BIPUSH', 'SIPUSH'): vs = [('I', i[2])]
                elif i[0].startswith('ICONST_') and i[0][7:].isdigit(): vs = [('I', int(i[0][7:]))]
                for t, v in vs:
                    if t in ('I', 'J', 'L') and isinstance(v, int): l = '%s:%d' % ('I' if -2**31 <= v < 2**31 else 'L', v)
                    elif t in ('F', 'D') and isinstance(v, (int, float)): l = 'D:%r' % float(v)
                    elif t == 'S' and isinstance(v, str) and len(v) <= 24 and not any(x in v for x in '%$/();') and v.isprintable(): l = '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
                    else: continue
                    if l not in out: out.append(l)
    return out
MINED = SCRATCH + '/mined'; open(MINED, 'w').write('\n'.join(mine()) + '\n')
def start_harness(secs, hints=None, tag=''):
    if HARNESS_ERROR: return None
    rep = '%s/%s%s.case' % (SCRATCH, PID, tag); out = rep + '.out'
    cmd = [B.JAVA, '-XX:TieredStopAtLevel=1', '-Xss4m', '-Xmx3g', '-Dfile.encoding=UTF-8', '-Dmined=' + MINED, '-cp', ':'.join([CP, CLS, HCLS]), 'Harness', PID, str(SEED), str(secs), hints or '-', rep]
    return subprocess.Popen(cmd, stdout=open(out, 'w'), stderr=subprocess.STDOUT, cwd=SCRATCH), rep, out, secs
def end_harness(h):
    """-> dict(ran, cases, compared, bad (text or None), replay)"""
    if h is None: return dict(ran=False, why=HARNESS_ERROR, bad=None, cases=0, compared=0)
    p, rep, out, secs = h
    try: rc = p.wait(timeout=secs + 150)
    except subprocess.TimeoutExpired: p.kill(); p.wait(); return dict(ran=False, why='time', bad=None, cases=0, compared=0)
    txt = open(out, errors='replace').read()
    st = [l for l in txt.splitlines() if l.startswith('STATS')]
    n = [int(x) for x in st[-1].split()[1:3]] if st else [0, 0]
    if rc == 1 and os.path.exists(rep): return dict(ran=True, bad=[l for l in txt.splitlines() if l.startswith('BAD')][:1] or [txt[-300:]], replay=rep, cases=n[0], compared=n[1])
    if rc != 0: return dict(ran=False, why='exit %s: %s' % (rc, txt[-400:]), bad=None, cases=n[0], compared=n[1])
    return dict(ran=True, bad=None, cases=n[0], compared=n[1])
say('harness compiled', HARNESS_ERROR or '')
HSECS = (8 if QUICK else 90)
H0 = start_harness(HSECS)

# ---------------------------------------------------------------- the obligations
import jobs as J, plan as PL
from contracts import LEMMAS
plan = PL.plan(PID, not QUICK)
LISTS = ('flatten', 'in_op', 'op_IN', 'op_CONTAINS_ANY', 'op_CONTAINS_ALL') + tuple(n for n in LEMMAS if n.startswith('fn_'))
FUNCS = ('flatten',) + tuple(n for n in LEMMAS if n.startswith('fn_'))
def has_filter(n): return n.startswith(('op_', 'ar_'))
LF = plan['lemma_filter']
def lemma_filter(n):
    if LF in ('none',): return LF
    if LF == 'errors': return LF if n.startswith(('op_', 'ar_', 'fn_')) else None
    if LF in ('num', 'notnum', 'rnum'):
        if n.startswith('op_') and n[3:] in PL.CMP or n.startswith('ar_') and LF != 'rnum': return LF
    return None
NOPROVE = plan.get('noprove', ())
BUD = 70 if QUICK else 240
LIMIT = 330 if QUICK else 800
def left(): return LIMIT - (time.time() - T0)
class Item:
    """an obligation with the ways of discharging it, tried in turn"""
    def __init__(self, base, variants): self.base, self.variants, self.i, self.res, self.log = base, variants, 0, None, []
    def job(self, dropped):
        v = self.variants[self.i]
        j = dict(self.base); j.update(v)
        j['lemmas'] = [n for n in j.get('lemmas', LEMMAS) if n not in dropped and n not in v.get('minus', ())]
        j.setdefault('budget', BUD)
        return j
FB = 2 if QUICK else 3
def lemma_item(n):
    base = dict(kind='lemma', lemma=n, name='contract ' + n + (' [%s]' % lemma_filter(n) if lemma_filter(n) else ''), filter=lemma_filter(n), weight=5)
    if n in FUNCS: vs = [dict(budget=150 if QUICK else 400), dict(bound=FB), dict(bound=2, minus=list(LEMMAS))]
    elif n in LISTS: vs = [dict(), dict(bound=2, minus=LISTS)]
    elif n == 'getValueFromMap': vs = [dict(), dict(bound=3)]
    else: vs = [dict(), dict(minus=list(LEMMAS))]
    return Item(base, vs)
def entry_item(j):
    if j['kind'] != 'entry': return Item(dict(j, weight=3), [dict()] + ([dict(j['fallback'])] if j.get('fallback') else []))
    vs = [dict(mode='opaque'), dict(mode='plain')]
    if j.get('cls') in ('In', 'Array', 'Function'): vs = [dict(mode='opaque'), dict(mode='plain', bound=2, minus=[n for n in LISTS])]
    return Item(dict(j, weight=8), vs)
def inline_item(j):
    """the entry with the operator's own code instead of its contract, on operands that are fields"""
    b = 2 if j.get('cls') in ('In', 'Array', 'Function') else None
    d = dict(j, mode='plain', children='field', weight=9, name=j['name'] + ' (operators in line)'); d.pop('filter', None)
    if j.get('filter') in ('num', 'notnum', 'errors'): d['filter'] = j['filter']
    if b: d['bound'] = b
    return Item(d, [dict(minus=[n for n in LEMMAS if n.startswith(('op_', 'ar_', 'fn_')) or n in ('in_op', 'flatten')])])
ENTRIES = [entry_item(j) for j in plan['jobs']]
LEM = {}
DROPPED = set()
def provable(n): return n in LEMMAS and not (NOPROVE and n.startswith(NOPROVE)) and LEMMAS[n].exists(dump)
def want(n):
    if provable(n) and n not in LEM: LEM[n] = lemma_item(n)
for e in ENTRIES:
    for n in PL.predicted(e.base):
        want(n)
        if provable(n):
            for k in PL.predicted_lemma(n): want(k)
for n in plan.get('extra_lemmas', []):
    if LEMMAS[n].exists(dump): LEM.setdefault(n, lemma_item(n))
def stale(it):
    """its proof uses a contract that does not hold"""
    return it.res is not None and any(n in DROPPED for n in it.res.get('used', []))
MAXR = 8
WORKERS = 7
for rnd in range(MAXR):
    todo = [x for x in ENTRIES + list(LEM.values()) if x.res is None]
    if not todo or left() < 15: break
    rs = J.run_all(dump, [x.job(DROPPED) for x in todo], workers=WORKERS, limit=max(10, left()))
    for x, r in zip(todo, rs):
        r['variant'] = x.i; x.res = r; x.log.append(r)
        say(r['job'], r['status'], r.get('wall_s'), r.get('detail', '')[:300] if r['status'] != 'proved' else '', 'variant %d' % x.i if x.i else '')
    for x in list(ENTRIES) + list(LEM.values()):
        if x.res and x.res['status'] == 'proved':
            for n in x.res.get('used', []): want(n)
    # what was not proved: another way
    for n, x in LEM.items():
        if x.res and x.res['status'] != 'proved':
            if x.i + 1 < len(x.variants): x.i += 1; x.res = None
            elif n not in DROPPED: DROPPED.add(n); say('contract dropped:', n)
    for x in ENTRIES:
        if x.res and x.res['status'] != 'proved' and x.i + 1 < len(x.variants): x.i += 1; x.res = None
    for x in ENTRIES + list(LEM.values()):
        if stale(x):
            bad = [n for n in x.res['used'] if n in DROPPED]
            # an operator's contract that fails: the entry stays as it is (what it makes of the operator is right), its operator in line below
            if x in ENTRIES and all(n.startswith(('op_', 'ar_', 'fn_')) for n in bad): continue
            x.res = None
INLINE = []
opbad = sorted(n for n in DROPPED if n.startswith(('op_', 'ar_', 'fn_')))
for x in ENTRIES:
    if x.base['kind'] == 'entry' and x.res and x.res['status'] == 'proved' and stale(x): INLINE.append((x, inline_item(x.base)))
if INLINE and left() > 15:
    rs = J.run_all(dump, [y.job(DROPPED) for x, y in INLINE], workers=WORKERS, limit=max(10, left()))
    for (x, y), r in zip(INLINE, rs): y.res = r; y.log.append(r); say(r['job'], r['status'], r.get('wall_s'), r.get('detail', '')[:300])

# ---------------------------------------------------------------- verdict
alarms, hints, notes = [], [], []
inl = {id(x): y for x, y in INLINE}
frame = set()
def collect_hints(r):
    for h in r.get('hints') or []:
        if h not in hints: hints.append(h)
def bound_text(j):
    if j['kind'] == 'listen' or j['kind'] == 'root': return 'sub-expressions that are a single word, literal or small comparison'
    if j['kind'] == 'parse': return 'histories of %d requests' % j.get('requests', 2)
    return 'lists of at most %s elements' % j.get('bound')
def within(x):
    """what became of the obligation without a bound, where it is proved with one only"""
    if not x.res or x.res['status'] != 'proved' or not x.res.get('bounded'): return None
    return next((l for l in x.log if l is not x.res and not l.get('bounded') and l['status'] == 'refuted'), None) or next((l for l in x.log if l is not x.res), None)
for x in ENTRIES:
    r = x.res
    if r is None: notes.append('%s: not decided (time)' % x.base['name']); continue
    if x.base['kind'] != 'construct': frame.update(r.get('frame') or [])
    if r['status'] == 'refuted' and not stale(x): alarms.append((r['job'], r['detail'], r)); collect_hints(r)
    elif r['status'] != 'proved': notes.append('%s: %s (%s)' % (r['job'], r['status'], r.get('detail', '')[:200]))
    for l in x.log: collect_hints(l) if l['status'] == 'refuted' else None
    first = within(x)
    if first and first['status'] == 'refuted' and x.base['kind'] in ('listen', 'root'): alarms.append((first['job'], first['detail'], first))
    elif first: notes.append('%s: proved only for %s; without the bound: %s (%s)' % (x.base['name'], bound_text(x.job(DROPPED)), first['status'], first.get('detail', '')[:200]))
    y = inl.get(id(x))
    if y is not None and y.res is not None:
        if y.res['status'] == 'refuted': alarms.append((y.res['job'], y.res['detail'], y.res)); collect_hints(y.res)
        elif y.res['status'] == 'proved': notes.append('%s: proved with the code of the operator in line (operands that are fields%s), the contract %s is not used' % (x.base['name'], ', lists up to 2' if y.base.get('bound') else '', ', '.join(opbad)))
        else: notes.append('%s: %s (%s)' % (y.res['job'], y.res['status'], y.res.get('detail', '')[:200]))
for n, x in LEM.items():
    if x.res is None: notes.append('contract %s: not decided (time)' % n); continue
    frame.update(x.res.get('frame') or [])
    first = within(x)
    if first: collect_hints(first); notes.append('contract %s: proved only for %s; without the bound: %s (%s)' % (n, bound_text(x.job(DROPPED)), first['status'], first.get('detail', '')[:200]))
    if n in DROPPED:
        collect_hints(x.res)
        notes.append('contract %s: %s (%s)' % (n, x.res['status'], x.res.get('detail', '')[:200]))
        if n in opbad and any(l['status'] == 'refuted' for l in x.log) and x.res['status'] == 'refuted':
            users = [e for e in ENTRIES if e.res and n in e.res.get('used', [])]
            ok = [e for e in users if inl.get(id(e)) is not None and inl[id(e)].res and inl[id(e)].res['status'] == 'proved']
            if len(ok) < len(users) or not users: alarms.append((x.res['job'], x.res['detail'], x.res))
if plan.get('frame'):
    if plan['frame'] == 'hard': hard = [f for f in frame if 'data' in f or 'parsed tree' in f]
    else: hard = [f for f in frame if not f.endswith('(under a lock)') and 'java/util/concurrent' not in f]
    for f in hard: alarms.append(('frame condition: ' + '; '.join(x.res['job'] for x in ENTRIES + list(LEM.values()) if x.res and f in (x.res.get('frame') or []))[:200], f, {'detail': f}))
    for f in sorted(frame - set(hard)): notes.append('frame: %s' % f)
h0 = end_harness(H0); say('harness', h0)
h1 = None
suspicious = bool(alarms or notes)
if suspicious and not h0['bad'] and not HARNESS_ERROR:
    import hints as HT
    hf = SCRATCH + '/hints'; open(hf, 'w').write('\n'.join(HT.encode(hints)) + '\n')
    h1 = end_harness(start_harness(15 if QUICK else 60, hf, 'h')); say('harness with the values of the counterexamples', h1)
bad = h0 if h0['bad'] else h1 if h1 and h1['bad'] else None

# ---------------------------------------------------------------- known findings
known = []
kf = HERE + '/known_findings.txt'
for l in open(kf) if os.path.exists(kf) else []:
    if l.startswith('finding: property=%s ' % PID): known.append(l.strip()[len('finding: property=%s ' % PID):])
for k in known: print('KNOWN-FINDING: property=%s %s' % (PID, k))

# ---------------------------------------------------------------- evidence
final = [x for x in ENTRIES + list(LEM.values()) if x.res] + [y for x, y in INLINE if y.res]
under, lib = set(), set()
for x in final: under.update(x.res.get('under') or []); lib.update(x.res.get('lib') or [])
def ob(x):
    r = x.res
    return {'obligation': r['job'], 'result': r['status'], 'bounded': bound_text(x.job(DROPPED)) if r.get('bounded') else False, 'paths': r.get('paths', 0), 'paths_discharged': r.get('discharged', 0), 'paths_where_nothing_is_required': r.get('unspecified', 0),
            'contracts_used_for_calls': r.get('used', []), 'solver_queries': r.get('queries', 0), 'solver_s': r.get('solver_s', 0), 'wall_s': r.get('wall_s', 0), **({'detail': r['detail'][:600]} if r['status'] != 'proved' else {})}
obs = [ob(x) for x in final]
import assumptions as AS
proved = [o for o in obs if o['result'] == 'proved']
ev = {'property': PID, 'tier': TIER, 'seed': SEED, 'level': json.load(open(HERE + '/MANIFEST.json')) and next((c['level'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks'] if c['property'] == PID), 'other') if os.path.exists(HERE + '/MANIFEST.json') else 'other',
      'coverage': {'obligations': len(obs), 'discharged': len(proved), 'discharged_bounded': len([o for o in proved if o['bounded']]), 'paths': sum(o['paths'] for o in obs), 'paths_discharged': sum(o['paths_discharged'] for o in obs),
                   'checker_cmd': './check.py %s --tier %s' % (PID, TIER), 'back_end': 'z3 %s (QF_UF + datatypes + linear/nonlinear int and real arithmetic)' % __import__('z3').get_version_string(), 'solver_queries': sum(o['solver_queries'] for o in obs), 'solver_s': round(sum(o['solver_s'] for o in obs), 1),
                   'functions_under_contract': sorted(under), 'list': obs, 'trusted_base': AS.TRUSTED + ['library methods with an assumed contract: ' + ', '.join(sorted(lib))],
                   'not_proved': notes, 'evaluations': h0['cases'] + (h1['cases'] if h1 else 0), 'distinct_nontrivial': h0['compared'] + (h1['compared'] if h1 else 0),
                   'rule': 'bounded check that runs beside the obligations (never counted as proved): random expressions and data, and the values of refuted obligations, evaluated by the compiled library and by the reference semantics in harness/Ref.java; counted as non-trivial when the reference fixes the outcome', 'samples': [],
                   'explanation': 'Every obligation is generated from the bytecode compiled from the current tree; see DESIGN.md.'},
      'assumptions': AS.ASSUMPTIONS + AS.EXTRA.get(PID, []), 'wall_s': round(time.time() - T0, 1), 'violations': 0}
if not h0['ran']: ev['coverage']['not_proved'].append('harness not run: %s' % h0.get('why'))
ev['coverage']['samples'] = [o['obligation'] for o in obs[:5]]
def finish(rc, v=0):
    ev['violations'] = v; ev['wall_s'] = round(time.time() - T0, 1)
    json.dump(ev, open(HERE + '/evidence/%s.json' % PID, 'w'), indent=1)
    print('%s: %d of %d obligations discharged (%d of them within a bound), %d cases in the bounded check, %.0f s' % (PID, len(proved), len(obs), ev['coverage']['discharged_bounded'], ev['coverage']['evaluations'], time.time() - T0))
    for n in notes: print('  note: ' + n[:300])
    sys.exit(rc)
path = '%s/%s.txt' % (REPLAY, PID)
if bad:
    txt = open(bad['replay'], errors='replace').read()
    open(path, 'w').write(txt + ''.join('# obligation that fails: %s: %s\n' % (a, d[:500].replace('\n', ' ')) for a, d, r in alarms))
    print('\n'.join(bad['bad'])); print('VIOLATION property=%s replay=%s' % (PID, path)); finish(1, 1)
if alarms:
    with open(path, 'w') as f:
        for a, d, r in alarms: f.write('# obligation: %s\n# verifier: %s\n# values of the counterexample: %s\n# replay: %s/check.py %s -v\n' % (a, d.replace('\n', ' '), r.get('hints'), HERE, PID))
    for a, d, r in alarms: print('obligation fails: %s: %s' % (a, d[:400]))
    print('VIOLATION property=%s replay=%s no-failing-input-found' % (PID, path)); finish(1, len(alarms))
finish(0)
