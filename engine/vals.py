"""Sorts, ghost functions and value wrappers of the verifier.

Every Java value that an expression can compute with (what a data map holds, what a literal denotes, what an operator returns) is
a term of the z3 datatype V.  Integers are mathematical integers (int/long arithmetic wraps explicitly in the interpreter),
BigDecimals are a rational and a scale, doubles are an uninterpreted sort with the exact value and the value that is printed,
strings an uninterpreted sort with the observations that the code makes of them."""
import z3

S = z3.DeclareSort('S')          # strings
D = z3.DeclareSort('D')          # doubles and floats
_V = z3.Datatype('V')
_V.declare('Null')
_V.declare('Bool', ('b', z3.BoolSort()))
_V.declare('Int', ('i', z3.IntSort()))
_V.declare('Long', ('l', z3.IntSort()))
_V.declare('Flt', ('f', D))
_V.declare('Dbl', ('d', D))
_V.declare('Dec', ('r', z3.RealSort()), ('sc', z3.IntSort()))
_V.declare('Str', ('s', S))
_V.declare('Ver', ('v', S))
_V.declare('Date', ('day', z3.IntSort()))
_V.declare('DT', ('sec', z3.IntSort()))
_V.declare('Coll', ('cid', z3.IntSort()))
_V.declare('Arr', ('aid', z3.IntSort()))
_V.declare('Map', ('mid', z3.IntSort()))
_V.declare('Oth', ('oid', z3.IntSort()))
V = _V.create()
KINDS = [V.constructor(i).name() for i in range(V.num_constructors())]
KIDX = {k: i for i, k in enumerate(KINDS)}
def isk(k, t):
    c = kind_syn(t)
    if c: return z3.BoolVal(c == k)
    r = KINDSOF[0](t) if KINDSOF[0] else None
    if r is not None:
        if k not in r: return z3.BoolVal(False)
        if len(r) == 1: return z3.BoolVal(True)
    return V.recognizer(KIDX[k])(t)
def isany(ks, t): return z3.Or([isk(k, t) for k in ks]) if len(ks) != 1 else isk(list(ks)[0], t)

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
F = z3.Function
# strings
sid = F('sid', S, I); slen = F('slen', S, I); srank = F('srank', S, I); vrank = F('vrank', S, I)
isdec = F('isdec', S, B); decval = F('decval', S, R); decscale = F('decscale', S, I)
isint = F('isint', S, B); intval = F('intval', S, I)
isdate = F('isdate', S, B); dateval = F('dateval', S, I); isdt = F('isdt', S, B); dtval = F('dtval', S, I)
istrue = F('istrue', S, B); isfalse = F('isfalse', S, B)      # equalsIgnoreCase "true" / "false"
isnullword = F('isnullword', S, B)                            # equalsIgnoreCase "null"
isblank = F('isblank', S, B)
concat = F('concat', S, S, S)
charat = F('charat', S, I, I); shash = F('shash', S, I)
othstr = F('othstr', I, S); othcls = F('othcls', I, I)
intstr = F('intstr', I, S); decstr = F('decstr', R, I, S); plainstr = F('plainstr', R, I, S); dblstr = F('dblstr', D, S); fltstr = F('fltstr', D, S)
datestr = F('datestr', I, S); dtstr = F('dtstr', I, S); collstr = F('collstr', I, S); arrstr = F('arrstr', I, S); mapstr = F('mapstr', I, S)
tolow = F('tolow', S, S); toup = F('toup', S, S)
# doubles
fin = F('fin', D, B); exact = F('exact', D, R); printed = F('printed', D, R); todbl = F('todbl', R, D)
dpow = F('dpow', D, D, D); printedscale = F('printedscale', D, I)
fprinted = F('fprinted', D, R); fprintedscale = F('fprintedscale', D, I)
# nonlinear arithmetic
rmul = F('rmul', R, R, R); rdiv = F('rdiv', R, R, R); sscale = F('sscale', R, I); irem = F('irem', I, I, I); idivt = F('idivt', I, I, I)
truncz = F('truncz', R, I, I)        # truncz(x, k): x * 10^k truncated toward zero
# collections and maps
clen = F('clen', I, I); celem = F('celem', I, I, V); mapget = F('mapget', I, S, V)
emptyset = F('setlike', I, B)

_consts = {}       # content -> term
_content = {}      # term id -> (content, term)

import re, datetime, decimal
_DEC = re.compile(r'^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$')
_INT = re.compile(r'^[+-]?\d+$')

def java_hash(txt):
    h = 0
    u = txt.encode('utf-16-be')
    for i in range(0, len(u), 2): h = (31 * h + u[i] * 256 + u[i + 1]) % 2**32
    return h - 2**32 if h >= 2**31 else h
def const_facts(txt, t):
    fs = [sid(t) == len(_consts_order()) if False else sid(t) == _ids[txt], slen(t) == len(txt)]
    m = bool(_DEC.match(txt))
    fs.append(isdec(t) == m)
    if m:
        d = decimal.Decimal(txt)
        fs.append(decval(t) == z3.RealVal(str(d) if 'E' not in str(d) else format(d, 'f')))
        fs.append(decscale(t) == -d.as_tuple().exponent)
    mi = bool(_INT.match(txt)); fs.append(isint(t) == mi)
    if mi: fs.append(intval(t) == int(txt))
    try:
        dd = datetime.datetime.strptime(txt, '%Y-%m-%d') if len(txt) == 10 else None
    except ValueError: dd = None
    fs.append(isdate(t) == (dd is not None))
    if dd is not None: fs.append(dateval(t) == (dd.date() - datetime.date(1970, 1, 1)).days)
    try:
        dt = datetime.datetime.strptime(txt, '%Y-%m-%d %H:%M:%S') if len(txt) == 19 else None
    except ValueError: dt = None
    fs.append(isdt(t) == (dt is not None))
    if dt is not None: fs.append(dtval(t) == int((dt - datetime.datetime(1970, 1, 1)).total_seconds()))
    fs.append(shash(t) == java_hash(txt))
    fs += [charat(t, i) == ord(ch) for i, ch in enumerate(txt[:12])]
    fs.append(istrue(t) == (txt.lower() == 'true')); fs.append(isfalse(t) == (txt.lower() == 'false'))
    fs.append(isnullword(t) == (txt.lower() == 'null')); fs.append(isblank(t) == (txt.strip() == ''))
    return fs

_ids = {}
def _consts_order(): return _ids
def sconst(txt):
    t = _consts.get(txt)
    if t is None:
        _ids[txt] = len(_ids)
        t = z3.Const('str%d_%s' % (_ids[txt], re.sub(r'\W', '_', txt)[:20]), S)
        _consts[txt] = t; _content[t.get_id()] = (txt, t)
    return t
def content(t):
    """the text of a string constant, or None for a symbolic string"""
    r = _content.get(t.get_id())
    return r[0] if r is not None and r[1].eq(t) else None

_KS = {}
def kind_syn(t):
    """the constructor of a constructor term, else None"""
    r = _KS.get(t.get_id())
    if r is None:
        k = None
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_DT_CONSTRUCTOR and d.name() in KIDX: k = d.name()
        r = _KS[t.get_id()] = (t, k)
    return r[1]
def is_cons(t, k=None):
    c = kind_syn(t)
    return c is not None if k is None else c == k
KINDSOF = [None]       # set by core: the kinds a term can still have on the current path
def kinds_of(v):
    """the kinds of a value that the path leaves open"""
    k = kind_syn(v)
    if k: return [k]
    r = KINDSOF[0](v) if KINDSOF[0] else None
    return KINDS if r is None else [k for k in KINDS if k in r]
def by_kind(v, tab, default):
    """the case distinction over the kinds of v"""
    ks = kinds_of(v)
    r = None
    groups = []
    for k in ks:
        t = tab[k]() if k in tab else default
        for g in groups:
            if g[1].eq(t): g[0].append(k); break
        else: groups.append(([k], t))
    groups.sort(key=lambda g: len(g[0]))
    for g in reversed(groups):
        r = g[1] if r is None else z3.If(isany(g[0], v), g[1], r)
    return r if r is not None else default

def sel(k, t, j=0):
    """selector, applied through a constructor term where possible"""
    if is_cons(t, k): return t.arg(j)
    return V.accessor(KIDX[k], j)(t)

def ite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    return z3.If(c, a, b)

def tostr(v):
    """the text Java prints for v (v not null)"""
    k = kind_syn(v)
    tab = {'Bool': lambda: ite(z3.simplify(sel('Bool', v)), sconst('true'), sconst('false')),
           'Int': lambda: intstr(sel('Int', v)), 'Long': lambda: intstr(sel('Long', v)), 'Flt': lambda: fltstr(sel('Flt', v)),
           'Dbl': lambda: dblstr(sel('Dbl', v)), 'Dec': lambda: decstr(sel('Dec', v, 0), sel('Dec', v, 1)), 'Str': lambda: sel('Str', v), 'Ver': lambda: sel('Ver', v),
           'Date': lambda: datestr(sel('Date', v)), 'DT': lambda: dtstr(sel('DT', v)), 'Coll': lambda: collstr(sel('Coll', v)), 'Arr': lambda: arrstr(sel('Arr', v)),
           'Map': lambda: mapstr(sel('Map', v)), 'Oth': lambda: othstr(sel('Oth', v)), 'Null': lambda: sconst('null')}
    return by_kind(v, tab, sconst('null'))

MIN32, MAX32, MIN64, MAX64 = -2**31, 2**31 - 1, -2**63, 2**63 - 1
def in32(t): return z3.And(t >= MIN32, t <= MAX32)
def in64(t): return z3.And(t >= MIN64, t <= MAX64)
def isInt(r): return z3.ToReal(z3.ToInt(r)) == r

def string_facts0(s):
    """what holds of every string"""
    c = content(s)
    if c is not None: return const_facts(c, s)
    return [slen(s) >= 0, slen(s) <= 2147483647, z3.Implies(isint(s), z3.And(isdec(s), decval(s) == z3.ToReal(intval(s)), decscale(s) == 0)),
            z3.Implies(isdec(s), dec_facts(decval(s), decscale(s))),
            z3.Implies(isdate(s), z3.And(z3.Not(isdec(s)), z3.Not(isdt(s)), z3.Not(isint(s)))), z3.Implies(isdt(s), z3.And(z3.Not(isdec(s)), z3.Not(isint(s)))),
            z3.Implies(z3.Or(istrue(s), isfalse(s)), z3.And(z3.Not(isdec(s)), z3.Not(isdate(s)), z3.Not(isdt(s)), slen(s) >= 4)),
            z3.Not(z3.And(istrue(s), isfalse(s))), z3.Implies(isblank(s), z3.And(z3.Not(isdec(s)), z3.Not(isdate(s)), z3.Not(isdt(s)), z3.Not(istrue(s)), z3.Not(isfalse(s)), z3.Not(isnullword(s)))),
            z3.Implies(isnullword(s), z3.And(z3.Not(isdec(s)), z3.Not(isdate(s)), z3.Not(isdt(s)), z3.Not(istrue(s)), z3.Not(isfalse(s))))]

def dec_facts(r, sc):
    """a BigDecimal of value r can have scale sc"""
    return z3.And(z3.Implies(sc <= 0, isInt(r)), (sscale(r) <= 0) == isInt(r), z3.Implies(r != 0, sscale(r) <= sc), z3.Implies(r == 0, sscale(r) == 0))

def notext(s): return [z3.Not(isdate(s)), z3.Not(isdt(s)), z3.Not(istrue(s)), z3.Not(isfalse(s)), z3.Not(isnullword(s)), z3.Not(isblank(s))]

_WF = {}
def cached(f):
    def g(t):
        k = (f.__name__, t.get_id())
        r = _WF.get(k)
        if r is None:
            saved, KINDSOF[0] = KINDSOF[0], None
            try: r = _WF[k] = (t, f(t))
            finally: KINDSOF[0] = saved
        return r[1]
    return g
@cached
def wf(v):
    """what holds of every value of type V; instantiated on each value that is looked at"""
    k = kind_syn(v)
    out = []
    def on(kk, fs):
        if k == kk: out.extend(fs)
        elif k is None: out.append(z3.Implies(isk(kk, v), z3.And(fs)))
    i = sel('Int', v) if k in (None, 'Int') else None
    if i is not None: on('Int', [in32(i)] + intstr_facts(i))
    i = sel('Long', v) if k in (None, 'Long') else None
    if i is not None: on('Long', [in64(i)] + intstr_facts(i))
    if k in (None, 'Dec'):
        r, sc = sel('Dec', v, 0), sel('Dec', v, 1)
        on('Dec', [dec_facts(r, sc)] + decstr_facts(r, sc))
    if k in (None, 'Dbl'):
        d = sel('Dbl', v); on('Dbl', dblstr_facts(d, dblstr, printed, printedscale))
    if k in (None, 'Flt'):
        d = sel('Flt', v); on('Flt', dblstr_facts(d, fltstr, fprinted, fprintedscale))
    if k in (None, 'Str'): on('Str', string_facts(sel('Str', v)))
    if k in (None, 'Ver'): on('Ver', string_facts(sel('Ver', v)))
    if k in (None, 'Oth'): on('Oth', string_facts(othstr(sel('Oth', v))))
    if k in (None, 'Bool') :
        out.extend(const_facts('true', sconst('true')) + const_facts('false', sconst('false')))
    if k in (None, 'Date'):
        t = datestr(sel('Date', v)); on('Date', [isdate(t), dateval(t) == sel('Date', v), z3.Not(isdt(t)), z3.Not(isdec(t)), z3.Not(isint(t)), z3.Not(istrue(t)), z3.Not(isfalse(t)), z3.Not(isnullword(t))])
    if k in (None, 'DT'):
        t = dtstr(sel('DT', v)); on('DT', [z3.Not(isdate(t)), z3.Not(isdt(t)), z3.Not(isdec(t)), z3.Not(isint(t)), z3.Not(istrue(t)), z3.Not(isfalse(t)), z3.Not(isnullword(t))])
    for kk, fn, l in (('Coll', collstr, True), ('Arr', arrstr, True), ('Map', mapstr, False)):
        if k in (None, kk):
            t = fn(sel(kk, v)); on(kk, [z3.Not(isdec(t)), z3.Not(isint(t))] + notext(t) + ([clen(sel(kk, v)) >= 0, clen(sel(kk, v)) <= 2147483647] if l else []))
    return out

def intstr_facts(i):
    t = intstr(i)
    return [isdec(t), decval(t) == z3.ToReal(i), decscale(t) == 0, isint(t), intval(t) == i, slen(t) >= 1] + notext(t)
def decstr_facts(r, sc):
    t = decstr(r, sc)
    return [isdec(t), decval(t) == r, decscale(t) == sc, slen(t) >= 1] + notext(t)
def dblstr_facts(d, fn, pr, psc):
    t = fn(d)
    return [isdec(t) == fin(d), z3.Implies(fin(d), z3.And(decval(t) == pr(d), decscale(t) == psc(d), dec_facts(pr(d), psc(d)))), z3.Not(isint(t))] + notext(t)

string_facts = cached(string_facts0)
# the numeric reading of a value: of a number its value, of anything else what its text spells, if it spells a number
def nm_ok(v):
    T, Fa = z3.BoolVal(True), z3.BoolVal(False)
    tab = {'Int': lambda: T, 'Long': lambda: T, 'Dec': lambda: T, 'Dbl': lambda: fin(sel('Dbl', v)), 'Flt': lambda: fin(sel('Flt', v)),
           'Str': lambda: isdec(sel('Str', v)), 'Ver': lambda: isdec(sel('Ver', v)), 'Oth': lambda: isdec(othstr(sel('Oth', v)))}
    return by_kind(v, tab, Fa)
def nm(v):
    tab = {'Int': lambda: z3.ToReal(sel('Int', v)), 'Long': lambda: z3.ToReal(sel('Long', v)), 'Dec': lambda: sel('Dec', v, 0), 'Dbl': lambda: printed(sel('Dbl', v)), 'Flt': lambda: fprinted(sel('Flt', v)),
           'Str': lambda: decval(sel('Str', v)), 'Ver': lambda: decval(sel('Ver', v)), 'Oth': lambda: decval(othstr(sel('Oth', v)))}
    return by_kind(v, tab, z3.RealVal(0))
def integral(v, within):
    """the numeric reading of v is a whole number in the range"""
    real = lambda ok, r: z3.And(ok, isInt(r), within(z3.ToInt(r)))
    st = lambda s: real(isdec(s), decval(s))
    tab = {'Int': lambda: within(sel('Int', v)) if within is not in32 else z3.BoolVal(True), 'Long': lambda: within(sel('Long', v)), 'Dec': lambda: real(z3.BoolVal(True), sel('Dec', v, 0)), 'Dbl': lambda: real(fin(sel('Dbl', v)), printed(sel('Dbl', v))),
           'Flt': lambda: real(fin(sel('Flt', v)), fprinted(sel('Flt', v))), 'Str': lambda: st(sel('Str', v)), 'Ver': lambda: st(sel('Ver', v)), 'Oth': lambda: st(othstr(sel('Oth', v)))}
    return by_kind(v, tab, z3.BoolVal(False))
NUMK = ['Int', 'Long', 'Flt', 'Dbl', 'Dec']
def isnum(v):
    ks = kinds_of(v)
    if all(k in NUMK for k in ks): return z3.BoolVal(True)
    if all(k not in NUMK for k in ks): return z3.BoolVal(False)
    return isany(NUMK, v)

# data types by name (priority order is a contract of the code, checked where it matters)
DTS = ['STRING', 'INTEGER', 'LONG', 'DECIMAL', 'VERSION', 'BOOLEAN', 'DATE', 'DATETIME']
DTI = {d: i for i, d in enumerate(DTS)}
def dt(v):
    """the data type of a value, as an index into DTS"""
    s = sel('Str', v)
    strdt = lambda s: ite(z3.simplify(isdt(s)), z3.IntVal(DTI['DATETIME']), ite(isdate(s), z3.IntVal(DTI['DATE']), z3.IntVal(DTI['STRING'])))
    tab = {'Bool': 'BOOLEAN', 'Flt': 'DECIMAL', 'Dbl': 'DECIMAL', 'Dec': 'DECIMAL', 'Int': 'INTEGER', 'Long': 'LONG', 'Ver': 'VERSION', 'Date': 'DATE', 'DT': 'DATETIME'}
    t2 = {k: (lambda d=d: z3.IntVal(DTI[d])) for k, d in tab.items()}
    t2['Str'] = lambda: strdt(s)
    return by_kind(v, t2, z3.IntVal(DTI['STRING']))
