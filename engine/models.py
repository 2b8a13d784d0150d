"""Contracts assumed of the library classes that the verified code calls: each model is the documented behaviour of the method, in
terms of the ghost functions of vals.py.  What is not modelled raises Unsupported."""
import re, z3
import vals as X
from vals import V, D, S
import core
from core import P, JavaExc, Unsupported, Infeasible
import jvm
from jvm import (Lg, Dv, Any, Obj, JClass, Lam, PyLam, SNode, Seq, JList, JArr, JMap, Stream, box_int, zint, zi, conc, norm, wrap, jstr, text,
                 touch, touch_s, kind, parse_desc, adapt)
import seqs
from seqs import SEnum

OPAQUE_CASTS = set()
EXC = lambda c: 'java/lang/' + c

def zbool(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef): return x
    x = zint(x)
    if isinstance(x, int): return z3.BoolVal(x != 0)
    return x != 0
def br(c):
    if isinstance(c, bool): return c
    if isinstance(c, int): return c != 0
    if isinstance(c, z3.ArithRef): c = c != 0
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    return P().branch(c)
def val(x):
    """the V term of a Java value that is no primitive"""
    if x is None: return V.Null
    if isinstance(x, Any): return x.v
    raise Unsupported('value expected, got %r' % (x,))
def boxed(x, z=False):
    """the reference for a primitive or reference"""
    if isinstance(x, Lg): return Any(V.Long(zi(x)))
    if isinstance(x, Dv): return Any(V.Dbl(dterm(x)))
    if z or isinstance(x, (bool, z3.BoolRef)): return Any(V.Bool(zbool(x)))
    if isinstance(x, (int, z3.ArithRef)): return box_int(x)
    return x
def ret_bool(b):
    b = z3.simplify(b) if isinstance(b, z3.BoolRef) else b
    if z3.is_true(b) if isinstance(b, z3.BoolRef) else b is True: return 1
    if z3.is_false(b) if isinstance(b, z3.BoolRef) else b is False: return 0
    return b
def sterm(a):
    """the S term of a string value (not null)"""
    if isinstance(a, Any):
        t = X.sel('Str', a.v)
        if P() is not None: touch_s(t)
        return t
    raise Unsupported('string expected, got %r' % (a,))
def strv(t): return Any(V.Str(t))
def throw(c, msg=''): raise JavaExc(c, jstr(msg))

# ---------------------------------------------------------------- numbers
def dterm(x):
    t = x.t
    if isinstance(t, float):
        d = z3.Const('dbl_%s' % repr(t).replace('-', 'm'), D)
        if P() is not None:
            if t == t and t not in (float('inf'), float('-inf')):
                r = z3.RealVal(repr(t)) if 'e' not in repr(t) else z3.Q(*t.as_integer_ratio())
                P().assume(X.fin(d), X.exact(d) == z3.Q(*t.as_integer_ratio()), X.printed(d) == r)
            else: P().assume(z3.Not(X.fin(d)))
        return d
    return t
def todbl(r):
    """the double nearest to the real r"""
    d = X.todbl(r)
    return d
def i2d(it, x, flt=False):
    t = zint(x)
    if isinstance(t, int): return Dv(float(t), flt)
    d = X.todbl(z3.ToReal(t))
    lim = 2**24 if flt else 2**53
    if flt: raise Unsupported('int to float')
    P().assume(X.fin(d), z3.Implies(z3.And(t >= -lim, t <= lim), X.exact(d) == z3.ToReal(t)), z3.Implies(t > lim, X.exact(d) >= lim), z3.Implies(t < -lim, X.exact(d) <= -lim), X.isInt(X.exact(d)))
    return Dv(d, flt)
def real_of_double(x):
    """(finite?, exact value)"""
    if isinstance(x.t, float): return z3.BoolVal(x.t == x.t and abs(x.t) != float('inf')), z3.Q(*x.t.as_integer_ratio()) if x.t == x.t and abs(x.t) != float('inf') else z3.RealVal(0)
    return X.fin(x.t), X.exact(x.t)
isnan = z3.Function('isnan', D, X.B)
def truncint(r): return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
def d2i(it, x, bits):
    if isinstance(x.t, float):
        v = x.t
        lo, hi = -2**(bits-1), 2**(bits-1)-1
        return 0 if v != v else hi if v >= hi else lo if v <= lo else int(v)
    f, e = real_of_double(x)
    lo, hi = -2**(bits-1), 2**(bits-1)-1
    P().assume(z3.Implies(X.fin(x.t), z3.Not(isnan(x.t))))
    if not P().branch(f):
        if P().branch(isnan(x.t)): return 0
        return P().fresh('d2i', X.I) if False else [lo, hi][P().choose([infneg(x.t), z3.Not(infneg(x.t))])]
    t = truncint(e)
    return z3.If(t > hi, z3.IntVal(hi), z3.If(t < lo, z3.IntVal(lo), t))
infneg = z3.Function('infneg', D, X.B)
def dcmp(it, a, b, nan):
    fa, ea = real_of_double(a); fb, eb = real_of_double(b)
    if br(z3.And(fa, fb)):
        return z3.If(ea < eb, z3.IntVal(-1), z3.If(ea == eb, z3.IntVal(0), z3.IntVal(1)))
    da, db = dterm(a), dterm(b)
    if br(z3.Or(isnan(da), isnan(db))): return nan
    # at least one infinite
    va = z3.If(fa, 0, z3.If(infneg(da), -1, 1)); vb = z3.If(fb, 0, z3.If(infneg(db), -1, 1))
    return z3.If(va < vb, z3.IntVal(-1), z3.If(va == vb, z3.IntVal(0), z3.IntVal(1)))
def darith(it, op, a, b):
    if isinstance(a.t, float) and (b is None or isinstance(b.t, float)):
        try: return Dv({'ADD': lambda: a.t + b.t, 'SUB': lambda: a.t - b.t, 'MUL': lambda: a.t * b.t, 'DIV': lambda: a.t / b.t, 'NEG': lambda: -a.t}[op]())
        except (ZeroDivisionError, KeyError): raise Unsupported('double arithmetic')
    f = z3.Function('d' + op.lower(), D, D, D)
    if op == 'NEG':
        n = z3.Function('dneg', D, D)(dterm(a))
        P().assume(X.fin(n) == X.fin(dterm(a)), X.exact(n) == -X.exact(dterm(a)), X.printed(n) == -X.printed(dterm(a)))
        return Dv(n)
    return Dv(f(dterm(a), dterm(b)))
imul_f = z3.Function('imul', X.I, X.I, X.I)
def rmul(a, b):
    """product of reals; symbolic products are uninterpreted but commutative and agree with the products of integers"""
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_rational_value(a) or z3.is_rational_value(b): return a * b
    p = X.rmul(a, b)
    P().assume(p == X.rmul(b, a), z3.Implies(z3.Or(a == 0, b == 0), p == 0), z3.Implies(a == 1, p == b), z3.Implies(b == 1, p == a), z3.Implies(a == -1, p == -b), z3.Implies(b == -1, p == -a),
               z3.Implies(z3.And(a > 0, b > 0), p > 0), z3.Implies(z3.And(a < 0, b < 0), p > 0), z3.Implies(z3.And(a > 0, b < 0), p < 0), z3.Implies(z3.And(a < 0, b > 0), p < 0),
               z3.Implies(z3.And(X.isInt(a), X.isInt(b)), X.isInt(p)))
    return p
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    ca, cb = conc(a), conc(b)
    if ca is not None or cb is not None: return (ca if ca is not None else a) * (cb if cb is not None else b)
    p = imul_f(a, b)
    P().assume(z3.ToReal(p) == rmul(z3.ToReal(a), z3.ToReal(b)))
    return p
def floordiv(a, c): return a / z3.IntVal(c) if not isinstance(a, int) else a // c
def positive(a):
    """a is known not to be negative (looked up, no search)"""
    c = z3.simplify(zi(a) >= 0)
    return z3.is_true(c) or P() is not None and P().lookup(c) is True
def known_as(key, args):
    """arguments equal to these on this path that were used before"""
    p = P()
    if p.sbs: return args
    old = p.ghost.get(key, ())
    for o in old:
        if all(a.eq(b) for a, b in zip(o, args)): return o
    for o in old:
        if p.entails(z3.And([a == b for a, b in zip(o, args)]), 800) is True: return o
    p.ghost[key] = old + (args,)
    return args
def idiv(a, b):
    if isinstance(a, int) and isinstance(b, int): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
    cb = conc(b)
    if cb is not None:
        if positive(a): q = a / z3.IntVal(abs(cb))
        else: q = z3.If(a >= 0, a / z3.IntVal(abs(cb)), -((-a) / z3.IntVal(abs(cb))))
        return q if cb > 0 else -q
    q = X.idivt(zi(a), zi(b)); P().assume(idiv_facts(zi(a), zi(b)))
    return q
def idiv_facts(a, b):
    q, r = X.idivt(a, b), X.irem(a, b)
    ab = z3.If(b < 0, -b, b); ar = z3.If(r < 0, -r, r)
    return z3.Implies(b != 0, z3.And(ar < ab, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0), a == z3.ToInt(X.rmul(z3.ToReal(q), z3.ToReal(b))) + r if False else z3.BoolVal(True)))
def irem(a, b):
    if isinstance(a, int) and isinstance(b, int): return abs(a) % abs(b) * (1 if a >= 0 else -1)
    cb = conc(b)
    if cb is not None and positive(a): return a % z3.IntVal(abs(cb))
    if cb is not None: return z3.If(a >= 0, a % z3.IntVal(abs(cb)), -((-a) % z3.IntVal(abs(cb))))
    r = X.irem(zi(a), zi(b)); P().assume(idiv_facts(zi(a), zi(b)))
    return r
def rdiv(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b): return a / b
    a, b = known_as('rdiv', (a, b))
    q = X.rdiv(a, b)
    P().assume(z3.Implies(b != 0, rmul(q, b) == a))
    return q
def truncdec(x, k):
    """x truncated toward zero to k decimals"""
    x = z3.simplify(x); m = z3.RealVal(10 ** k) if k >= 0 else z3.Q(1, 10 ** -k)
    if z3.is_rational_value(x): return z3.simplify(z3.ToReal(truncint(x * m)) / m)
    z = X.truncz(x, z3.IntVal(k)); y = x * m; zr = z3.ToReal(z)
    P().assume(z == truncint(y))
    return zr / m
def rounded(x, k, mode):
    """x rounded to k decimals (k a constant)"""
    if not isinstance(k, int): raise Unsupported('rounding to a symbolic scale')
    m = z3.RealVal(10 ** k) if k >= 0 else z3.Q(1, 10 ** -k)
    y = x * m
    fl = lambda t: z3.ToReal(z3.ToInt(t))
    half = z3.Q(1, 2)
    ay = z3.If(y >= 0, y, -y); sg = z3.If(y >= 0, z3.RealVal(1), z3.RealVal(-1))
    def signed(t): return z3.If(y >= 0, t, -t)
    if mode == 'DOWN': return truncdec(x, k)
    elif mode == 'FLOOR': r = fl(y)
    elif mode == 'CEILING': r = -fl(-y)
    elif mode == 'UP': r = signed(-fl(-ay))
    elif mode == 'HALF_UP': r = signed(fl(ay + half))
    elif mode == 'HALF_DOWN': r = signed(-fl(-(ay - half)))
    elif mode == 'HALF_EVEN': r = signed(z3.If(z3.And(ay - fl(ay) == half, z3.ToInt(ay) % 2 == 0), fl(ay), fl(ay + half)))
    elif mode == 'UNNECESSARY':
        if not P().branch(fl(y) == y): throw(EXC('ArithmeticException'), 'Rounding necessary')
        r = y
    else: raise Unsupported('rounding mode ' + str(mode))
    return r / m
MODES = ['UP', 'DOWN', 'CEILING', 'FLOOR', 'HALF_UP', 'HALF_DOWN', 'HALF_EVEN', 'UNNECESSARY']
def mode_of(x):
    if isinstance(x, Obj) and x.cls == 'java/math/RoundingMode': return text(x.f['$name'])
    c = conc(x)
    if c is not None: return MODES[c]
    raise Unsupported('rounding mode')
BIGI = 'java/math/BigInteger'
def bigint(t):
    o = Obj(BIGI); o.f['i'] = norm(t); return o
def bigint_call(it, a, name, desc, args):
    x = a.f['i']
    def o(k=0):
        if it.isnull(args[k]): it.npe('BigInteger operand')
        if not isinstance(args[k], Obj) or args[k].cls != BIGI: raise Unsupported('BigInteger operand')
        return args[k].f['i']
    if name in ('add', 'subtract'): return bigint(x + o() if name == 'add' else x - o())
    if name == 'multiply': return bigint(imul(x, o()))
    if name == 'negate': return bigint(-x)
    if name == 'abs': return bigint(abs(x) if isinstance(x, int) else z3.If(x >= 0, x, -x))
    if name == 'signum': return norm(z3.If(zi(x) > 0, z3.IntVal(1), z3.If(zi(x) == 0, z3.IntVal(0), z3.IntVal(-1))))
    if name in ('max', 'min'):
        y = o(); c = zi(x) >= zi(y) if name == 'max' else zi(x) <= zi(y)
        return bigint(z3.If(c, zi(x), zi(y)))
    if name == 'compareTo': y = zi(o()); x = zi(x); return norm(z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1))))
    if name == 'equals': return ret_bool(zbool(jequals(it, a, args[0])))
    if name in ('divide', 'remainder', 'mod'):
        y = o()
        if br(zi(y) == 0): throw(EXC('ArithmeticException'), 'BigInteger divide by zero')
        if name == 'mod': raise Unsupported('BigInteger.mod')
        return bigint((idiv if name == 'divide' else irem)(x, y))
    if name == 'pow' and conc(args[0]) is not None and 0 <= conc(args[0]) <= 3:
        r = 1
        for _ in range(conc(args[0])): r = imul(r, x)
        return bigint(r)
    if name in ('longValueExact', 'intValueExact'):
        n = 64 if name.startswith('long') else 32
        if not (-2**(n-1) <= x < 2**(n-1) if isinstance(x, int) else br(X.in64(x) if n == 64 else X.in32(x))): throw(EXC('ArithmeticException'), 'out of range')
        return Lg(x) if n == 64 else x
    if name in ('longValue', 'intValue'): t = norm(wrap(x, 64 if name == 'longValue' else 32)); return Lg(t) if name == 'longValue' else t
    if name == 'bitLength' and not isinstance(x, int):
        b = P().fresh('bits', X.I)      # two's complement, without the sign
        P().assume(b >= 0, (b <= 31) == X.in32(x), (b <= 63) == X.in64(x)); return b
    if name == 'toString' and not args: return strv(X.intstr(zi(x)))
    if name == 'hashCode': return P().approx('hash', X.I)
    raise Unsupported('BigInteger.' + name)
def dec(r, sc):
    """a new BigDecimal"""
    if isinstance(sc, int): sc = z3.IntVal(sc)
    r = z3.simplify(r) if False else r
    a = Any(V.Dec(r, sc)); touch(a.v); return a
def unbox(it, a, k=None):
    """xxxValue of a wrapper"""
    if it.isnull(a): it.npe('unboxing')
    if k is None or X.is_cons(a.v): k = kind(a)
    touch(a.v)
    t = X.sel(k, a.v)
    if k == 'Int': return norm(t)
    if k == 'Bool': return ret_bool(t)
    if k == 'Long': return Lg(norm(t))
    if k == 'Dbl': return Dv(t)
    if k == 'Flt': return Dv(t, True)
    raise Unsupported('unboxing ' + k)

# ---------------------------------------------------------------- objects
class ExcObj: pass
def new_object(it, cls):
    if cls in ('java/util/ArrayList', 'java/util/LinkedList', 'java/util/Vector'): return JList(Seq(items=[]), cls=cls)
    if cls in ('java/util/HashMap', 'java/util/EnumMap', 'java/util/LinkedHashMap', 'java/util/TreeMap', 'java/util/IdentityHashMap', 'java/util/WeakHashMap', 'java/util/concurrent/ConcurrentHashMap'): return JMap(cls)
    if cls in ('java/util/HashSet', 'java/util/LinkedHashSet', 'java/util/TreeSet'): o = JList(Seq(items=[]), cls=cls); o.isset = True; return o
    if cls in it.classes: return Obj(cls)
    o = Obj(cls)
    return o
def construct(it, owner, desc, args):
    o = new_object(it, owner)
    if owner in it.classes:
        it.init(owner)
        c, m = it.find(owner, '<init>', desc); it.invoke(c, m, [o] + args); return o
    super_init(it, o, owner, desc, args)
    return getattr(o, 'become', o)
def super_init(it, o, owner, desc, args):
    """constructor of a library class"""
    pts, _ = parse_desc(desc)
    if owner in ('java/lang/Object', 'java/lang/Record'): return None
    if owner == 'java/lang/Enum': o.f['$name'], o.f['$ordinal'] = args[0], args[1]; return None
    if isinstance(o, JList):
        if pts not in ([], ['I'], ['Ljava/util/Collection;']): raise Unsupported('%s with a comparator or of another kind' % owner)
        if pts == ['Ljava/util/Collection;']:
            o.seq = seqs.copy_seq(seq_of(it, args[0]))
            if getattr(o, 'isset', False) and o.seq.items is not None: seqs.tree_keys(it, o, o.seq.items); o.seq = Seq(items=seqs.dedupe(it, o.seq.items))
        return None
    if isinstance(o, JMap):
        if pts and pts[0] not in ('I', 'F', 'Ljava/util/Map;', 'Ljava/lang/Class;'): raise Unsupported('%s with a comparator or of another kind' % owner)
        if pts and pts[0] == 'Ljava/util/Map;': o.d = [list(e) for e in args[0].d]
        return None
    if it.subclass(o.cls, 'java/lang/Throwable'):
        o.f['$msg'] = args[0] if args and isinstance(args[0], Any) else None
        return None
    if owner == 'java/math/BigDecimal': o.become = new_decimal(it, pts, args); return None
    if owner == 'org/apache/maven/artifact/versioning/ComparableVersion':
        if it.isnull(args[0]): it.npe('version')
        o.become = Any(V.Ver(sterm(args[0]))); touch(o.become.v); return None
    if owner == BIGI and pts == ['Ljava/lang/String;']:
        if it.isnull(args[0]): it.npe('new BigInteger')
        t = sterm(args[0]); touch_s(t)
        if not br(X.isint(t)): throw(EXC('NumberFormatException'), 'not an integer')
        o.become = bigint(X.intval(t)); return None
    if owner in ATOMIC:
        o.f['v'] = args[0] if args else ATOMIC[owner]; return None
    if owner == 'java/lang/StringBuilder':
        o.f['s'] = args[0] if pts == ['Ljava/lang/String;'] else jstr(''); return None
    if owner in ('java/lang/String',):
        o.become = args[0] if args else jstr(''); return None
    if owner.startswith('org/antlr/') or owner.startswith('io/vavr') or owner in EXTRA_INIT:
        f = EXTRA_INIT.get(owner)
        return f(it, o, pts, args) if f else None
    if owner in jvm.UNSAFE or P() is None: return None        # nothing is known of it: a call of it is not supported
    raise Unsupported('constructor of ' + owner)
EXTRA_INIT = {}

def new_decimal(it, pts, args):
    a = args[0]
    if pts[0] == 'Ljava/lang/String;':
        if it.isnull(a): it.npe('new BigDecimal')
        s = sterm(a)
        c = X.content(s)
        if not br(X.isdec(s)): throw(EXC('NumberFormatException'), 'not a decimal')
        if c is not None:
            import decimal
            d = decimal.Decimal(c)
            return dec(z3.Q(*d.as_integer_ratio()), -d.as_tuple().exponent)
        return dec(X.decval(s), X.decscale(s))
    if pts[0] == 'I': return dec(z3.ToReal(zi(a)), 0)
    if pts[0] == 'J': return dec(z3.ToReal(zi(a)), 0)
    if pts[0] == 'D':
        f, e = real_of_double(a)
        if not br(f): throw(EXC('NumberFormatException'), 'Infinite or NaN')
        if isinstance(a.t, float):
            import decimal
            d = decimal.Decimal(a.t); return dec(e, max(0, -d.as_tuple().exponent))
        return dec(e, z3.Function('exactscale', D, X.I)(a.t))
    if pts[0] == 'Ljava/math/BigInteger;' and isinstance(a, Obj) and a.cls == BIGI:
        if len(pts) == 1: return dec(z3.ToReal(zi(a.f['i'])), 0)
        k = conc(args[1])
        if len(pts) == 2 and k is not None: return dec(z3.ToReal(zi(a.f['i'])) / z3.RealVal(10 ** k) if k >= 0 else z3.ToReal(zi(a.f['i'])) * 10 ** -k, k)
    raise Unsupported('BigDecimal constructor')

ENUMS = {}
def lib_enum(owner, name, consts=None):
    e = ENUMS.get((owner, name))
    if e is None:
        saved, core.Path.cur = core.Path.cur, None
        e = Obj(owner); e.f['$name'] = jstr(name); e.f['$ordinal'] = consts.index(name) if consts else 0
        core.Path.cur = saved
        ENUMS[(owner, name)] = e
    return e
def lib_field(it, owner, name, desc):
    if owner == 'java/math/RoundingMode': return lib_enum(owner, name, MODES)
    if owner == BIGI and name in ('ZERO', 'ONE', 'TWO', 'TEN'): return bigint({'ZERO': 0, 'ONE': 1, 'TEN': 10, 'TWO': 2}[name])
    if owner == 'java/math/BigDecimal':
        if name in ('ZERO', 'ONE', 'TEN', 'TWO'): return Any(V.Dec(z3.RealVal({'ZERO': 0, 'ONE': 1, 'TEN': 10, 'TWO': 2}[name]), z3.IntVal(0)))
        if name.startswith('ROUND_'): return MODES.index(name[6:])
    if owner == 'java/lang/Boolean' and name in ('TRUE', 'FALSE'): return Any(V.Bool(z3.BoolVal(name == 'TRUE')))
    if owner in ('java/lang/Integer', 'java/lang/Long'):
        k = {'java/lang/Integer': 32, 'java/lang/Long': 64}[owner]
        if name in ('MAX_VALUE', 'MIN_VALUE'):
            v = 2**(k-1)-1 if name == 'MAX_VALUE' else -2**(k-1)
            return v if k == 32 else Lg(v)
    return lib_enum(owner, name)      # other constants are opaque objects

def lib_instance(it, o, t):
    if t in ('java/lang/Object',): return True
    if it.subclass(o.cls, t): return True
    return not (o.cls in it.classes or o.cls in it.ext) or False
def loops_of(it, cls, m):
    l = m.get('$loops')
    if l is None:
        l = {}
        for i, ins in enumerate(m['code']):
            if ins[0].startswith('IF') or ins[0] in ('GOTO',):
                t = ins[2]
                if isinstance(t, int) and t <= i: l[t] = max(l.get(t, 0), i)
        m['$loops'] = l
    return l
def at_loop_head(it, cls, m, pc, end, loc, st):
    return seqs.loop_head(it, cls, m, pc, end, loc, st)

# ---------------------------------------------------------------- arrays and sequences
def arr(it, a):
    if isinstance(a, JArr): return a.seq
    if isinstance(a, Any): return it.coll_seq(a)
    raise Unsupported('array %r' % (a,))
def seq_get(it, s, j, exc):
    j = norm(zint(j)); n = norm(s.size())
    if isinstance(j, int) and isinstance(n, int):
        if not 0 <= j < n: throw(exc, 'Index')
        return s.at(j)
    if not br(z3.And(zi(j) >= 0, zi(j) < zi(n))): throw(exc, 'Index')
    P().index(zi(j))
    return s.at(j)
def seq_write(it, o, f):
    it.writable(o, 'the contents')
    if o.seq.items is None: raise Unsupported('write to a sequence of symbolic length')
    old = o.seq
    new = Seq(items=list(old.items), tag=None)
    f(new.items)
    o.seq = new
    if P() is not None and o.owner is not P(): P().journal.append(lambda: setattr(o, 'seq', old))
def seq_set(it, o, new):
    it.writable(o, 'the contents')
    old = o.seq
    o.seq = new
    if P() is not None and o.owner is not P(): P().journal.append(lambda: setattr(o, 'seq', old))
def seq_of(it, x):
    if isinstance(x, JList) and x.mutable and seqs.writes_appended(x): P().events.append(('read', x.id))
    if isinstance(x, (JList, JArr)): return x.seq
    if isinstance(x, Any):
        if it.isnull(x): it.npe('collection')
        return it.coll_seq(x)
    if x is None: it.npe('collection')
    if isinstance(x, JMapView): return x.seq
    raise Unsupported('elements of %r' % (x,))
class JMapView(JList): pass

# ---------------------------------------------------------------- equality of arbitrary references
def jequals(it, a, b):
    """a.equals(b), a not null; z3 Bool or bool"""
    if isinstance(a, SEnum) or isinstance(b, SEnum): return seqs.enum_eq(it, a, b)
    if isinstance(a, Any):
        if b is None: return False
        if not isinstance(b, Any): return False
        k = X.kind_syn(a.v) or kind(a)
        kb = X.kind_syn(b.v)
        if kb is not None and kb != k: return False
        if k in ('Coll', 'Map', 'Oth', 'Ver'):
            if z3.simplify(a.v == b.v).eq(z3.BoolVal(True)): return True
            if k == 'Ver':
                return z3.And(X.isk('Ver', b.v), X.vrank(X.sel('Ver', a.v)) == X.vrank(X.sel('Ver', b.v)))
            f = z3.Function('equals_' + k, V, V, X.B)
            return z3.And(X.isk(k, b.v), z3.Or(a.v == b.v, f(a.v, b.v)))
        if k in ('Flt', 'Dbl'):
            x, y = X.sel(k, a.v), X.sel(k, b.v)
            return z3.And(X.isk(k, b.v), z3.Or(x == y, z3.Function('dblequals', D, D, X.B)(x, y)))
        touch(b.v)
        if k == 'Str':
            ca, cb = text(a), text(b)
            if ca is not None and cb is not None: return ca == cb
            if ca is not None: touch_s(a.v.arg(0))
        return z3.simplify(z3.And(X.isk(k, b.v), *[X.sel(k, a.v, i) == X.sel(k, b.v, i) for i in range(2 if k == 'Dec' else 1)]))
    if isinstance(a, Obj):
        if a is b: return True
        if a.cls == BIGI: return isinstance(b, Obj) and b.cls == BIGI and zbool(zi(a.f['i']) == zi(b.f['i']))
        if a.cls == 'pair' or a.cls.endswith('/Pair') or a.cls.endswith('ImmutablePair'):
            if not isinstance(b, Obj) or b.cls != a.cls: return False
            return z3.And(zbool(null_equals(it, a.f['l'], b.f['l'])), zbool(null_equals(it, a.f['r'], b.f['r'])))
        if isinstance(a, JList) and isinstance(b, JList):
            x, y = a.seq, b.seq
            if x.items is None or y.items is None: raise Unsupported('equality of symbolic lists')
            if len(x.items) != len(y.items): return False
            return z3.And([z3.BoolVal(True)] + [zbool(null_equals(it, p, q)) for p, q in zip(x.items, y.items)])
        if a.cls in it.classes:
            c, m = it.find(a.cls, 'equals', '(Ljava/lang/Object;)Z')
            if m: return zbool(it.invoke(c, m, [a, b]))
        return False
    if isinstance(a, SNode) and isinstance(b, SNode): return a.nid == b.nid
    if isinstance(a, JClass): return isinstance(b, JClass) and a.name == b.name
    return a is b
def null_equals(it, a, b):
    an, bn = it.isnull(a), it.isnull(b)
    if an or bn: return an and bn
    return jequals(it, a, b)

# ---------------------------------------------------------------- comparison of values (Comparable.compareTo)
def compare_values(it, a, b):
    if it.isnull(a): it.npe('compareTo')
    if isinstance(a, Obj) or isinstance(a, SEnum):
        if isinstance(a, SEnum) or '$ordinal' in a.f:
            return norm(zi(seqs.ordinal(a)) - zi(seqs.ordinal(b)))
        if a.cls in it.classes: return it.virtual(a, a.cls, 'compareTo', '(Ljava/lang/Object;)I', [b])
        raise Unsupported('compareTo of ' + a.cls)
    if it.isnull(b): it.npe('compareTo')
    k = kind(a)
    if not isinstance(b, Any): raise JavaExc('java/lang/ClassCastException')
    kb = X.kind_syn(b.v)
    if kb is None:
        touch(b.v)
        if not P().branch(X.isk(k, b.v)): raise JavaExc('java/lang/ClassCastException')
    elif kb != k: raise JavaExc('java/lang/ClassCastException')
    x, y = X.sel(k, a.v), X.sel(k, b.v)
    if k in ('Str',):
        cx, cy = X.content(x), X.content(y)
        if cx is not None and cy is not None: return (cx > cy) - (cx < cy)
        P().assume((X.srank(x) == X.srank(y)) == (x == y)); x, y = X.srank(x), X.srank(y)
    elif k == 'Ver':
        P().assume(z3.Implies(x == y, X.vrank(x) == X.vrank(y))); x, y = X.vrank(x), X.vrank(y)
    elif k == 'Bool': x, y = zi(x), zi(y)
    elif k in ('Dbl', 'Flt'): raise Unsupported('Double.compareTo')
    elif k in ('Int', 'Long', 'Dec', 'Date', 'DT'): pass
    else: raise JavaExc('java/lang/ClassCastException')
    if k in ('Str', 'Ver', 'Date', 'DT'):      # only the sign is fixed
        c = z3.Function('compare_' + k, x.sort(), y.sort(), X.I)(x, y)
        P().assume((c < 0) == (x < y), (c == 0) == (x == y), c >= -2147483648, c <= 2147483647)
        return c
    return z3.simplify(z3.If(x < y, z3.IntVal(-1), z3.If(x == y, z3.IntVal(0), z3.IntVal(1))))

# ---------------------------------------------------------------- strings
ubin = lambda n, r: z3.Function(n, S, S, r)
def value_string(it, a):
    """String.valueOf"""
    if isinstance(a, (Lg,)): return strv(X.intstr(zi(a))) if conc(a.t) is None else jstr(str(conc(a.t)))
    if isinstance(a, (bool, z3.BoolRef)): return Any(V.Str(X.ite(z3.simplify(zbool(a)), X.sconst('true'), X.sconst('false'))))
    if isinstance(a, (int, z3.ArithRef)):
        if conc(a) is not None: return jstr(str(conc(a)))
        P().assume(*X.intstr_facts(a)); return strv(X.intstr(a))
    if isinstance(a, Dv): return strv(X.dblstr(dterm(a)))
    if a is None: return jstr('null')
    if isinstance(a, Any):
        k = X.kind_syn(a.v)
        if k == 'Str': return a
        if k == 'Null': return jstr('null')
        if P() is None:
            if k == 'Int' and conc(a.v.arg(0)) is not None: return jstr(str(conc(a.v.arg(0))))
            raise Unsupported('text of a symbolic value')
        touch(a.v)
        return strv(X.tostr(a.v))
    if isinstance(a, Obj) and '$name' in a.f and not has_tostring(it, a): return a.f['$name']
    if isinstance(a, Obj) and a.cls in it.classes:
        c, m = it.find(a.cls, 'toString', '()Ljava/lang/String;')
        if m: return it.invoke(c, m, [a])
    if isinstance(a, Obj) and a.cls == 'java/lang/StringBuilder': return a.f['s']
    if isinstance(a, Obj) and a.cls == BIGI: return strv(X.intstr(zi(a.f['i'])))
    return strv(P().approx('text', S)) if P() is not None else jstr('?')
def has_tostring(it, a):
    c, m = it.find(a.cls, 'toString', '()Ljava/lang/String;') if a.cls in it.classes else (None, None)
    return m is not None
def sconcat(a, b):
    ca, cb = X.content(a), X.content(b)
    if ca is not None and cb is not None: return X.sconst(ca + cb)
    if ca == '': return b
    if cb == '': return a
    r = X.concat(a, b)
    if P() is not None: touch_s(a); touch_s(b); P().assume(X.slen(r) == X.slen(a) + X.slen(b), X.slen(r) >= 0)
    return r
def concat_recipe(it, bargs, args, pts):
    rec = bargs[0][1] if bargs else '\x01' * len(args)
    parts = []; i = 0; lit = ''
    for ch in rec:
        if ch == '\x01':
            if lit: parts.append(X.sconst(lit)); lit = ''
            x = args[i]
            if pts[i] == 'Z': x = z3.simplify(zbool(x))
            if pts[i] == 'C' and isinstance(x, int): x = jstr(chr(x))
            t = value_string(it, x); parts.append(X.sel('Str', t.v) if not it.isnull(t) else X.sconst('null')); i += 1
        elif ch == '\x02': raise Unsupported('concat recipe')
        else: lit += ch
    if lit: parts.append(X.sconst(lit))
    if not parts: return jstr('')
    r = parts[-1]
    r = parts[0]
    for p in parts[1:]: r = sconcat(r, p)
    return strv(r)

def lower_root(c):
    return c.lower()
def turkish_lower(c): return c.replace('I', '\u0131').replace('\u0130', 'i').lower()
def turkish_upper(c): return c.replace('i', '\u0130').replace('\u0131', 'I').upper()
def str_call(it, a, name, desc, args):
    s = sterm(a); c = X.content(s)
    pts, _ = parse_desc(desc)
    if name == 'length': return len(c) if c is not None else X.slen(s)
    if name == 'isEmpty': return int(c == '') if c is not None else (X.slen(s) == 0)
    if name == 'isBlank': return int(c.strip() == '') if c is not None else X.isblank(s)
    if name == 'equals': return ret_bool(zbool(jequals(it, a, args[0])))
    if name == 'hashCode':
        if c is not None: return X.java_hash(c)
        touch_s(s); P().assume(X.in32(X.shash(s))); return X.shash(s)
    if name == 'equalsIgnoreCase':
        if it.isnull(args[0]): return 0
        o = sterm(args[0]); co = X.content(o)
        if c is not None and co is not None: return int(c.lower() == co.lower())
        w, t = (c, o) if c is not None else (co, s)
        if w is not None and w.lower() in ('true', 'false', 'null'):
            return {'true': X.istrue, 'false': X.isfalse, 'null': X.isnullword}[w.lower()](t)
        return ubin('eqic', X.B)(s, o)
    if name in ('toLowerCase', 'toUpperCase'):
        low = name == 'toLowerCase'
        root = bool(args) and isinstance(args[0], Obj) and args[0].cls == 'java/util/Locale' and text(args[0].f.get('$name')) in ('ROOT', 'ENGLISH', 'US', 'UK')
        if c is not None:
            if root or (P() is not None and not default_locale_turkish(it)): return jstr(c.lower() if low else c.upper())
            return jstr(turkish_lower(c) if low else turkish_upper(c))
        if not root: return strv(z3.Function('lower_default' if low else 'upper_default', S, S)(s))
        r = X.tolow(s) if low else X.toup(s)
        touch_s(r)
        # what case mapping keeps
        P().assume(X.istrue(r) == X.istrue(s), X.isfalse(r) == X.isfalse(s), X.isnullword(r) == X.isnullword(s))
        for w, f in (('true', X.istrue), ('false', X.isfalse), ('null', X.isnullword)):
            k = X.sconst(w if low else w.upper()); P().assume(*X.const_facts(w if low else w.upper(), k)); P().assume((r == k) == f(s))
        return strv(r)
    if name == 'toString' or name == 'intern': return a
    if name in ('trim', 'strip'):
        if c is not None: return jstr(c.strip())
        return strv(z3.Function('strim', S, S)(s))
    if name in ('startsWith', 'endsWith', 'contains') and len(args) == 1:
        if isinstance(args[0], Any):
            o = sterm(args[0]); co = X.content(o)
            if c is not None and co is not None: return int({'startsWith': c.startswith, 'endsWith': c.endswith, 'contains': c.__contains__}[name](co))
            r = ubin(name, X.B)(s, o)
            touch_s(s); touch_s(o)
            P().assume(z3.Implies(r, X.slen(s) >= X.slen(o)))
            if co == '': return 1
            if co is not None and len(co) == 1 and name != 'contains':
                P().assume(r == z3.And(X.slen(s) >= 1, X.charat(s, z3.IntVal(0) if name == 'startsWith' else X.slen(s) - 1) == ord(co)))
            elif co is not None and name == 'startsWith' and len(co) <= 12:
                P().assume(r == z3.And([X.slen(s) >= len(co)] + [X.charat(s, z3.IntVal(k)) == ord(ch) for k, ch in enumerate(co)]))
            return r
    if name == 'substring':
        i = zint(args[0]); j = zint(args[1]) if len(args) > 1 else X.slen(s) if c is None else len(c)
        if c is not None and conc(i) is not None and conc(j) is not None:
            i, j = conc(i), conc(j)
            if not 0 <= i <= j <= len(c): throw(EXC('StringIndexOutOfBoundsException'))
            return jstr(c[i:j])
        if not br(z3.And(zi(i) >= 0, zi(i) <= zi(j), zi(j) <= X.slen(s))): throw(EXC('StringIndexOutOfBoundsException'))
        if conc(i) == 0 and len(args) == 1: return a
        r = z3.Function('substr', S, X.I, X.I, S)(s, zi(i), zi(j)); touch_s(r)
        P().assume(X.slen(r) == zi(j) - zi(i), z3.Implies(z3.And(zi(i) == 0, zi(j) == X.slen(s)), r == s))
        return strv(r)
    if name == 'charAt':
        i = zint(args[0])
        if c is not None and conc(i) is not None:
            if not 0 <= conc(i) < len(c): throw(EXC('StringIndexOutOfBoundsException'))
            return ord(c[conc(i)])
        if not br(z3.And(zi(i) >= 0, zi(i) < X.slen(s))): throw(EXC('StringIndexOutOfBoundsException'))
        t = X.charat(s, zi(i)); P().assume(t >= 0, t <= 65535)
        return t
    if name == 'compareTo': return compare_values(it, a, args[0])
    if name == 'concat': return strv(sconcat(s, sterm(args[0])))
    if name == 'replace' and c is not None and isinstance(args[0], Any) and text(args[0]) is not None and text(args[1]) is not None: return jstr(c.replace(text(args[0]), text(args[1])))
    if name == 'replace' and isinstance(args[0], Any) and text(args[0]) and text(args[1]) is not None:
        f, t = text(args[0]), text(args[1])
        r = z3.Function('replaced', S, S, S, S)(s, X.sconst(f), X.sconst(t)); touch_s(r)
        P().assume(z3.Implies(z3.Not(ubin('contains', X.B)(s, X.sconst(f))), r == s))
        if len(f) == len(t): P().assume(X.slen(r) == X.slen(s))
        return strv(r)
    if name == 'split': return seqs.split(it, s, args)
    if name in ('indexOf', 'lastIndexOf') and len(args) == 1:
        if isinstance(args[0], Any) and c is not None and text(args[0]) is not None: return c.find(text(args[0])) if name == 'indexOf' else c.rfind(text(args[0]))
        if c is not None and isinstance(args[0], int): return c.find(chr(args[0])) if name == 'indexOf' else c.rfind(chr(args[0]))
    if name in ('indexOf', 'lastIndexOf') and len(args) == 1 and (isinstance(args[0], Any) or isinstance(args[0], int)):
        o = sterm(args[0] if isinstance(args[0], Any) else jstr(chr(args[0]))); touch_s(s); touch_s(o)
        r = ubin(name.lower(), X.I)(s, o)
        P().assume(r >= -1, r <= X.slen(s) - X.slen(o), (r >= 0) == ubin('contains', X.B)(s, o)) if X.content(o) != '' else None
        if X.content(o) == '': return 0 if name == 'indexOf' else X.slen(s)
        return r
    if name == 'matches' and c is not None and text(args[0]) is not None: return int(re.fullmatch(text(args[0]), c) is not None)
    if name == 'matches' and text(args[0]) in ('[0-9]+', '\\d+'):
        d = alldigits(s); P().assume(z3.Implies(d, z3.And(X.isint(s), X.intval(s) >= 0, X.slen(s) >= 1))); return ret_bool(d)
    if name == 'getBytes': return JArr(Seq(items=[]), 'B')
    raise Unsupported('String.%s on a symbolic string' % name)
alldigits = z3.Function('alldigits', S, X.B)
def default_locale_turkish(it):
    p = P()
    v = z3.Const('default_locale_is_turkish', X.B)
    return p.branch(v)

# ---------------------------------------------------------------- methods of data values
NUMCALL = {'intValue', 'longValue', 'doubleValue', 'floatValue', 'shortValue', 'byteValue'}
def value_call(it, a, owner, name, desc, args):
    v = a.v
    it.usedlib.add('%s.%s' % (owner, name))
    if name == 'toString' and not args: return value_string(it, a)
    if name == 'equals' and len(args) == 1: return ret_bool(zbool(jequals(it, a, args[0])))
    if name == 'compareTo': return compare_values(it, a, args[0])
    if name == 'hashCode': return z3.Function('vhash', V, X.I)(v)
    if name == 'getClass':
        k = X.kind_syn(v)
        o = Obj('java/lang/Class'); o.f['of'] = a; o.k = k; return o
    k = X.kind_syn(v) or {o: ks[0] for o, ks in jvm.JCLS.items() if len(ks) == 1}.get(owner) or ('Coll' if owner in ('java/util/List', 'java/util/Set', 'java/util/Collection') else None) or kind(a)
    touch(v)
    if k == 'Str': return str_call(it, a, name, desc, args)
    if k == 'Dec': return dec_call(it, a, name, desc, args)
    if k in ('Int', 'Long') and name in NUMCALL:
        t = norm(X.sel(k, v))
        if name == 'intValue': return norm(wrap(t, 32)) if k == 'Long' else t
        if name == 'longValue': return Lg(t)
        if name == 'doubleValue': return i2d(it, t)
        raise Unsupported('%s.%s' % (owner, name))
    if k == 'Dbl' and name == 'doubleValue': return Dv(X.sel(k, v))
    if k in ('Dbl', 'Flt') and name in ('longValue', 'intValue') : 
        r = d2i(it, Dv(X.sel(k, v)), 32 if name == 'intValue' else 64)
        return r if name == 'intValue' else Lg(r)
    if k in ('Dbl',) and name in ('isNaN', 'isInfinite'):
        d = X.sel(k, v)
        P().assume(z3.Implies(X.fin(d), z3.Not(isnan(d))))
        return isnan(d) if name == 'isNaN' else z3.And(z3.Not(X.fin(d)), z3.Not(isnan(d)))
    if k == 'Flt' and name == 'floatValue': return Dv(X.sel(k, v), True)
    if k == 'Flt' and name == 'doubleValue': return Dv(z3.Function('f2d', D, D)(X.sel(k, v)))
    if k == 'Dbl' and name == 'floatValue': return Dv(z3.Function('d2f', D, D)(X.sel(k, v)), True)
    if k == 'Bool' and name == 'booleanValue': return ret_bool(X.sel(k, v))
    if k == 'Coll': return seqs.coll_call(it, a, name, desc, args)
    if k == 'Arr' and name == 'clone': return a
    if k == 'Map': return map_value_call(it, a, name, desc, args)
    if k == 'Date':
        d = X.sel(k, v)
        if name in ('isBefore', 'isAfter', 'isEqual'):
            e = X.sel('Date', val(args[0])); return {'isBefore': d < e, 'isAfter': d > e, 'isEqual': d == e}[name]
        if name == 'toEpochDay': return Lg(d)
        if name in ('plusDays', 'minusDays', 'plusWeeks', 'minusWeeks'):
            k = zi(args[0]) * (7 if 'Weeks' in name else 1); r = d + k if name[0] == 'p' else d - k
            if not br(z3.And(r >= -365243219162, r <= 365241780471)): throw('java/time/DateTimeException')
            return Any(V.Date(r))
        if name == 'atStartOfDay' and not args: return Any(V.DT(d * 86400))
        if name == 'until': return until(it, d, X.sel('Date', val(args[0])), args)
    if k == 'DT':
        d = X.sel(k, v)
        if name in ('isBefore', 'isAfter', 'isEqual'):
            e = X.sel('DT', val(args[0])); return {'isBefore': d < e, 'isAfter': d > e, 'isEqual': d == e}[name]
        if name == 'toLocalDate': return Any(V.Date(d / 86400))
    raise Unsupported('%s.%s on a %s' % (owner, name, k))
def until(it, d, e, args):
    if len(args) == 2 and isinstance(args[1], Obj) and text(args[1].f.get('$name')) == 'DAYS': return Lg(e - d)
    raise Unsupported('until')
maphas = z3.Function('maphas', X.I, S, X.B)
def map_value_call(it, a, name, desc, args):
    m = X.sel('Map', a.v)
    def key():
        if it.isnull(args[0]): return None
        x = args[0]
        if not isinstance(x, Any): raise Unsupported('map key')
        if X.kind_syn(x.v) not in (None, 'Str') : raise Unsupported('map key of kind ' + str(X.kind_syn(x.v)))
        return sterm(x)
    if name in ('get', 'containsKey', 'getOrDefault'):
        s = key()
        if s is None: s = z3.Const('nullkey', S)
        t = X.mapget(m, s); touch(t)
        if name == 'get': return Any(t)
        has = maphas(m, s); P().assume(z3.Implies(z3.Not(has), X.isk('Null', t)))
        if name == 'containsKey': return has
        return Any(t) if P().branch(has) else args[1]
    if name == 'isEmpty':
        return z3.Function('mapempty', X.I, X.B)(m)
    if name in ('put', 'remove', 'putIfAbsent', 'clear', 'computeIfAbsent', 'merge', 'compute', 'putAll'):
        P().events.append(('frame', 'the data map is modified (%s)' % name))
        return Any(P().fresh('old', V)) if not parse_desc(desc)[1] == 'V' else None
    raise Unsupported('Map.%s on the data map' % name)

def dec_call(it, a, name, desc, args):
    r, sc = X.sel('Dec', a.v, 0), X.sel('Dec', a.v, 1)
    pts, _ = parse_desc(desc)
    def o(i=0):
        x = args[i]
        if it.isnull(x): it.npe('BigDecimal operand')
        if not isinstance(x, Any): raise Unsupported('BigDecimal operand')
        return X.sel('Dec', x.v, 0), X.sel('Dec', x.v, 1)
    mx = lambda p, q: z3.simplify(z3.If(p >= q, p, q))
    if name in ('add', 'subtract') and len(args) == 1:
        r2, s2 = o(); return dec(r + r2 if name == 'add' else r - r2, mx(sc, s2))
    if name == 'multiply' and len(args) == 1:
        r2, s2 = o(); return dec(rmul(r, r2), sc + s2)
    if name == 'negate' and not args: return dec(-r, sc)
    if name == 'abs' and not args: return dec(z3.If(r >= 0, r, -r), sc)
    if name == 'plus' and not args: return a
    if name == 'signum': return z3.simplify(z3.If(r > 0, z3.IntVal(1), z3.If(r == 0, z3.IntVal(0), z3.IntVal(-1))))
    if name == 'scale': return norm(sc)
    if name == 'stripTrailingZeros':
        if P() is not None: P().assume(X.dec_facts(r, sc))
        return dec(r, X.sscale(r))
    if name == 'toPlainString':
        t = X.plainstr(r, sc)
        P().assume(X.isdec(t), X.decval(t) == r, X.isint(t) == (sc <= 0), z3.Implies(sc <= 0, X.intval(t) == z3.ToInt(r)), *X.notext(t)); touch_s(t)
        return strv(t)
    if name in ('max', 'min'):
        r2, s2 = o(); c = r >= r2 if name == 'max' else r <= r2
        return dec(z3.If(c, r, r2), z3.If(c, sc, s2))
    if name in ('divide',):
        r2, s2 = o()
        if br(r2 == 0): throw(EXC('ArithmeticException'), 'Division by zero')
        q = rdiv(r, r2)
        if len(args) == 3:
            k = conc(args[1]); return dec(rounded(q, k, mode_of(args[2])), z3.IntVal(k) if k is not None else None)
        if len(args) == 2 and pts[1] in ('I', 'Ljava/math/RoundingMode;'):
            k = conc(sc)
            if k is None: return dec(z3.Function('roundto_' + mode_of(args[1]), X.R, X.I, X.R)(q, sc), sc)
            return dec(rounded(q, k, mode_of(args[1])), sc)
        if len(args) == 1:
            b = z3.Function('terminates', X.R, X.B)(q)
            if not P().branch(b): throw(EXC('ArithmeticException'), 'Non-terminating decimal expansion')
            return dec(q, P().fresh('qscale', X.I))
        c = P().approx('ctxquotient', X.R)
        return dec(c, P().fresh('qscale', X.I))
    if name in ('remainder', 'divideToIntegralValue') and len(args) == 1:
        r2, s2 = o()
        if br(r2 == 0): throw(EXC('ArithmeticException'), 'Division by zero')
        q = truncint(rdiv(r, r2))
        if name == 'remainder': return dec(r - rmul(z3.ToReal(q), r2), mx(sc, s2))
        return dec(z3.ToReal(q), P().fresh('qscale', X.I))
    if name == 'setScale':
        k = conc(args[0])
        if k is None: raise Unsupported('setScale to a symbolic scale')
        return dec(rounded(r, k, mode_of(args[1]) if len(args) > 1 else 'UNNECESSARY'), z3.IntVal(k))
    if name in ('longValueExact', 'intValueExact'):
        if not br(z3.And(X.isInt(r), X.in64(z3.ToInt(r)) if name.startswith('long') else X.in32(z3.ToInt(r)))): throw(EXC('ArithmeticException'), 'Overflow')
        t = norm(z3.ToInt(r)); return Lg(t) if name.startswith('long') else t
    if name in ('longValue', 'intValue'):
        t = norm(wrap(truncint(r), 64 if name == 'longValue' else 32)); return Lg(t) if name == 'longValue' else t
    if name == 'doubleValue':
        d = X.todbl(r); return Dv(d)
    if name == 'toBigInteger': return bigint(truncint(r))
    if name == 'toBigIntegerExact':
        if not br(X.isInt(r)): throw(EXC('ArithmeticException'), 'Rounding necessary')
        return bigint(z3.ToInt(r))
    if name == 'precision': return z3.Function('precision', X.R, X.I, X.I)(r, sc)
    if name == 'pow' and conc(args[0]) is not None and 0 <= conc(args[0]) <= 3:
        x = z3.RealVal(1)
        for _ in range(conc(args[0])): x = rmul(x, r)
        return dec(x, sc * conc(args[0]))
    raise Unsupported('BigDecimal.' + name)

# ---------------------------------------------------------------- Optional, Pair, Try, builders ...
def some(x):
    o = Obj('java/util/Optional'); o.f['v'] = x; return o
NONE = object()
def none(): return some(NONE)
def opt_of_nullable(it, x): return none() if it.isnull(x) else some(x)
def optional_call(it, o, name, desc, args):
    v = o.f['v']
    if isinstance(v, Any) and getattr(o, 'cond', None) is not None:
        # present under a condition
        pass
    p = v is not NONE
    if name == 'isPresent': return int(p)
    if name == 'isEmpty': return int(not p)
    if name in ('get', 'getAsInt', 'getAsLong', 'getAsDouble') or (name == 'orElseThrow' and not args):
        if not p: throw('java/util/NoSuchElementException', 'No value present')
        return v
    if name == 'orElse': return v if p else args[0]
    if name == 'orElseGet': return v if p else it.apply(args[0])
    if name == 'orElseThrow':
        if p: return v
        e = it.apply(args[0])
        raise exc_of(it, e)
    if name == 'map':
        if not p: return none()
        return opt_of_nullable(it, it.apply(args[0], v))
    if name == 'flatMap':
        if not p: return none()
        r = it.apply(args[0], v)
        if it.isnull(r): it.npe('flatMap')
        return r
    if name == 'filter':
        if not p: return o
        return o if br(zbool(it.apply(args[0], v))) else none()
    if name == 'ifPresent':
        if p: it.apply(args[0], v)
        return None
    if name == 'ifPresentOrElse':
        if p: it.apply(args[0], v)
        else: it.apply(args[1])
        return None
    if name == 'or': return o if p else it.apply(args[0])
    if name == 'stream': return Stream(Seq(items=[v] if p else []))
    if name == 'equals':
        b = args[0]
        if not isinstance(b, Obj) or b.cls != o.cls: return 0
        if not p or b.f['v'] is NONE: return int(not p and b.f['v'] is NONE)
        return ret_bool(zbool(jequals(it, v, b.f['v'])))
    if name == 'toString': return strv(P().approx('text', S))
    raise Unsupported('Optional.' + name)
def exc_of(it, o):
    if it.isnull(o): it.npe('throw')
    e = getattr(o, 'exc', None)
    return e if e is not None else JavaExc(o.cls, o.f.get('$msg'), o)

def try_success(v): o = Obj('io/vavr/control/Try$Success'); o.f['v'] = v; return o
def try_failure(e): o = Obj('io/vavr/control/Try$Failure'); o.f['e'] = e; return o
def try_run(it, f):
    try: return try_success(f())
    except JavaExc as e:
        if e.cls in ('java/lang/StackOverflowError', 'java/lang/OutOfMemoryError'): raise
        return try_failure(e)
def try_call(it, o, name, desc, args):
    ok = o.cls.endswith('Success')
    if name in ('map', 'mapTry'): return try_run(it, lambda: it.apply(args[0], o.f['v'])) if ok else o
    if name in ('flatMap', 'flatMapTry'):
        if not ok: return o
        try: return it.apply(args[0], o.f['v'])
        except JavaExc as e: return try_failure(e)
    if name == 'get':
        if ok: return o.f['v']
        raise o.f['e']
    if name == 'isSuccess': return int(ok)
    if name == 'isFailure': return int(not ok)
    if name == 'getCause':
        if ok: throw('java/lang/UnsupportedOperationException')
        import interp
        e = o.f['e']; return e.obj if e.obj is not None else interp.exc_obj(e)
    if name == 'getOrElse': return o.f['v'] if ok else args[0]
    if name == 'getOrElseGet': return o.f['v'] if ok else it.apply(args[0], try_call(it, o, 'getCause', desc, []))
    if name == 'recover' and len(args) == 1: return o if ok else try_run(it, lambda: it.apply(args[0], try_call(it, o, 'getCause', desc, [])))
    if name in ('recover', 'recoverWith') and len(args) == 2:
        import interp
        if ok: return o
        e = o.f['e']
        if not interp.exc_is(it, e, args[0].name): return o
        fn = not isinstance(args[1], Any) and parse_desc(desc)[0][1] != 'Ljava/lang/Object;'
        if name == 'recoverWith': return it.apply(args[1], try_call(it, o, 'getCause', desc, [])) if parse_desc(desc)[0][1] != 'Lio/vavr/control/Try;' else args[1]
        return try_run(it, lambda: it.apply(args[1], try_call(it, o, 'getCause', desc, []))) if fn else try_success(args[1])
    if name == 'onFailure':
        if not ok: it.apply(args[0], try_call(it, o, 'getCause', desc, []))
        return o
    if name == 'onSuccess':
        if ok: it.apply(args[0], o.f['v'])
        return o
    if name == 'andThen': 
        if ok: it.apply(args[0], o.f['v'])
        return o
    if name == 'fold': return it.apply(args[1], o.f['v']) if ok else it.apply(args[0], try_call(it, o, 'getCause', desc, []))
    raise Unsupported('Try.' + name)

ATOMIC = {'java/util/concurrent/atomic/Atomic' + k: v for k, v in (('Boolean', 0), ('Integer', 0), ('Long', Lg(0)), ('Reference', None))}
def atomic_call(it, o, name, args):
    """an atomic variable: exact where the call made it (or nothing runs beside, in static initialisers); a shared one may hold anything, other threads write it"""
    p = P(); own = p is None
    q = p
    while q is not None: own = own or o.owner is q; q = q.parent
    k = o.cls[len('java/util/concurrent/atomic/Atomic'):]
    def cur():
        if own: return o.f['v']
        if k == 'Reference': raise Unsupported('what a shared AtomicReference holds')
        t = p.approx('atomic', X.B if k == 'Boolean' else X.I)
        if k == 'Boolean': return t
        p.assume(X.in64(t) if k == 'Long' else X.in32(t)); return Lg(t) if k == 'Long' else t
    if k in ('Integer', 'Long') and not isinstance(args[0] if args else None, (Lam, PyLam)):
        d = {'incrementAndGet': 1, 'getAndIncrement': 1, 'decrementAndGet': -1, 'getAndDecrement': -1}.get(name, args[0] if name in ('addAndGet', 'getAndAdd') else None)
        if d is not None:
            old = cur(); t = jvm.norm(jvm.wrap(zi(zint(old)) + zi(zint(d)), 64 if k == 'Long' else 32))
            if k == 'Long': t = Lg(t)
            it.putfield(o, 'v', t); return old if name.startswith('getAnd') else t
    if name in ('get', 'getPlain', 'getAcquire', 'getOpaque', 'intValue') and not args: return cur()
    if name in ('set', 'lazySet', 'setPlain', 'setRelease'): it.putfield(o, 'v', args[0]); return None
    if name == 'getAndSet': old = cur(); it.putfield(o, 'v', args[0]); return old
    if name in ('compareAndSet', 'weakCompareAndSet') and k != 'Reference':
        if br(zi(zint(cur())) == zi(zint(args[0]))): it.putfield(o, 'v', args[1]); return 1
        return 0
    if name == 'compareAndSet' and own and it.isnull(args[0]):
        if o.f['v'] is None: it.putfield(o, 'v', args[1]); return 1
        return 0
    raise Unsupported('%s.%s' % (o.cls, name))
EXTRA_LIB = {}     # cls -> function(it, recv, owner, name, desc, args), set by the contracts of the parser
def at_init(f):
    """a library call in a static initialiser of which nothing is known gives an object of which nothing is known"""
    def g(it, *args):
        if P() is not None: return f(it, *args)
        try: return f(it, *args)
        except Unsupported:
            rt = parse_desc(args[-2])[1]
            if not rt.startswith('L') or rt[1:-1] in it.classes or rt[1:-1] in jvm.JCLS: raise
            return Obj(rt[1:-1])
    return g
@at_init
def lib_call(it, recv, owner, name, desc, args):
    it.usedlib.add('%s.%s' % (owner, name))
    pts, rt = parse_desc(desc)
    if isinstance(recv, Obj) and recv.cls in EXTRA_LIB:
        r = EXTRA_LIB[recv.cls](it, recv, owner, name, desc, args)
        if r is not NotImplemented: return r
    if isinstance(recv, Obj) and recv.cls in jvm.UNSAFE and not (recv.cls == 'java/lang/StringBuilder' and name in ('append', 'toString', 'length')): it.writable(recv, 'a call (%s)' % name)
    if isinstance(recv, Obj) and recv.cls in ATOMIC: return atomic_call(it, recv, name, args)
    if isinstance(recv, SEnum):
        if name in ('ordinal',): return recv.t
        if name in ('equals',): return ret_bool(zbool(seqs.enum_eq(it, recv, args[0])))
        if name == 'compareTo': return compare_values(it, recv, args[0])
        if name == 'hashCode': return z3.Function('ehash', X.I, X.I)(recv.t)
        e = seqs.resolve(it, recv)
        return it.virtual(e, owner, name, desc, args)
    if isinstance(recv, Lam) or isinstance(recv, PyLam):
        if owner in ('java/util/Comparator',) and name != 'compare': return comparator_op(it, recv, name, args)
        if name in ('andThen', 'compose', 'negate', 'and', 'or'):
            f = recv
            if name == 'negate': return PyLam(lambda *x: z3.Not(zbool(it.apply(f, *x))))
            if name == 'andThen': return PyLam(lambda *x: it.apply(args[0], it.apply(f, *x)))
            if name == 'compose': return PyLam(lambda *x: it.apply(f, it.apply(args[0], *x)))
            if name == 'and': return PyLam(lambda *x: zbool(it.apply(args[0], *x)) if br(zbool(it.apply(f, *x))) else z3.BoolVal(False))
            if name == 'or': return PyLam(lambda *x: z3.BoolVal(True) if br(zbool(it.apply(f, *x))) else zbool(it.apply(args[0], *x)))
            raise Unsupported(name)
        return it.apply(recv, *args)
    if isinstance(recv, Stream):
        par = recv.par
        if par and name in ('forEach', 'peek', 'findAny', 'iterator'): raise Unsupported('%s of a parallel stream' % name)
        r = seqs.stream_call(it, recv, name, desc, args)
        if isinstance(r, Stream): r.par = name != 'sequential' and (par or name == 'parallel')
        return r
    if isinstance(recv, JList): return seqs.list_call(it, recv, owner, name, desc, args)
    if isinstance(recv, JMap): return seqs.map_call(it, recv, owner, name, desc, args)
    if isinstance(recv, seqs.Iter): return recv.call(it, name)
    if isinstance(recv, JArr):
        if name == 'clone':
            return JArr(Seq(items=list(recv.seq.items)) if recv.seq.items is not None else recv.seq, recv.elem)
    if isinstance(recv, JClass) or (isinstance(recv, Obj) and recv.cls == 'java/lang/Class'):
        if isinstance(recv, JClass):
            if name in ('isInstance',): return 0 if it.isnull(args[0]) else int(it.instance(args[0], recv.name))
            if name == 'cast':
                if not it.isnull(args[0]) and not it.instance(args[0], recv.name): raise JavaExc('java/lang/ClassCastException')
                return args[0]
            if name in ('getSimpleName', 'getName'): return jstr(recv.name.split('/')[-1] if name == 'getSimpleName' else recv.name.replace('/', '.'))
            if name == 'desiredAssertionStatus': return 0
        if name in ('getSimpleName', 'getName', 'toString'): return strv(P().approx('classname', S))
    if isinstance(recv, Obj):
        c = recv.cls
        if c == BIGI: return bigint_call(it, recv, name, desc, args)
        if c in ('java/util/Optional', 'java/util/OptionalInt', 'java/util/OptionalLong'): return optional_call(it, recv, name, desc, args)
        if c.startswith('io/vavr/control/Try'): return try_call(it, recv, name, desc, args)
        if c == 'pair':
            if name in ('getLeft', 'getKey'): return recv.f['l']
            if name in ('getRight', 'getValue'): return recv.f['r']
            if name == 'equals': return ret_bool(zbool(jequals(it, recv, args[0])))
            if name == 'setValue':
                it.writable(recv, 'entry'); raise Unsupported('setValue')
        if c == 'java/lang/StringBuilder':
            if name == 'append':
                x = args[0]
                if pts[0] == 'Z': x = z3.simplify(zbool(x))
                if pts[0] == 'C' and isinstance(x, int): x = jstr(chr(x))
                t = value_string(it, x)
                it.putfield(recv, 's', strv(sconcat(X.sel('Str', recv.f['s'].v), X.sel('Str', t.v)))); return recv
            if name == 'toString': return recv.f['s']
            if name == 'setLength' and conc(args[0]) == 0: it.putfield(recv, 's', jstr('')); return None
            if name == 'length': return X.slen(X.sel('Str', recv.f['s'].v)) if text(recv.f['s']) is None else len(text(recv.f['s']))
        if '$ordinal' in recv.f or it.is_enum(c):
            if name == 'ordinal': return recv.f['$ordinal']
            if name in ('name', 'toString'): return recv.f['$name']
            if name == 'equals': return ret_bool(zbool(jequals(it, recv, args[0])))
            if name == 'compareTo': return compare_values(it, recv, args[0])
            if name == 'hashCode': return recv.f['$ordinal']
            if name == 'getDeclaringClass': return JClass(c)
            if name == 'between' and text(recv.f.get('$name')) == 'DAYS': return Lg(X.sel('Date', val(args[1])) - X.sel('Date', val(args[0])))
        if getattr(recv, 'exc', None) is not None or it.subclass(c, 'java/lang/Throwable'):
            if name in ('getMessage', 'getLocalizedMessage'): return recv.f.get('$msg')
            if name in ('getCause',): return None
            if name in ('toString',): return strv(P().approx('text', S))
            if name in ('initCause', 'fillInStackTrace'): return recv
            if name in ('addSuppressed', 'printStackTrace', 'setStackTrace'): return None
        if name == 'getClass': return JClass(c)
        if name == 'equals': return ret_bool(zbool(jequals(it, recv, args[0])))
        if name == 'hashCode': return recv.id
        if name == 'toString': return strv(P().approx('text', S)) if P() is not None else jstr(c)
        if c == 'comparator' or owner == 'java/util/Comparator':
            if name == 'compare': return it.apply(recv, *args)
            return comparator_op(it, recv, name, args)
        if c == 'java/time/format/DateTimeFormatter': 
            return formatter_call(it, recv, name, args)
        if c.startswith('java/util/stream/Collector') : raise Unsupported('Collector.' + name)
    if isinstance(recv, Obj) and recv.cls == 'reduction' : return None
    raise Unsupported('%s.%s%s on %r' % (owner, name, desc, recv))
def comparator_op(it, f, name, args):
    if name == 'reversed': return PyLam(lambda a, b: it.apply(f, b, a))
    if name in ('thenComparing',) and len(args) == 1:
        g = args[0]
        def cmp(a, b):
            r = it.apply(f, a, b)
            if br(zi(r) != 0): return r
            return it.apply(g, a, b)
        return PyLam(cmp)
    raise Unsupported('Comparator.' + name)
def formatter_call(it, f, name, args):
    if name == 'withResolverStyle':
        o = Obj(f.cls); o.f.update(f.f); o.f['style'] = text(args[0].f['$name']); return o
    if name == 'withLocale': return f
    if name == 'parse': raise Unsupported('formatter.parse')
    raise Unsupported('DateTimeFormatter.' + name)
def lib_special(it, recv, owner, name, desc, args):
    """super.method() of a library class"""
    if name in ('equals',): return int(recv is args[0])
    if name == 'hashCode': return recv.id
    if name == 'toString': return value_string(it, recv) if '$name' in recv.f else strv(P().approx('text', S))
    r = EXTRA_SPECIAL.get((owner, name))
    if r: return r(it, recv, args)
    raise Unsupported('super call %s.%s' % (owner, name))
EXTRA_SPECIAL = {}
def apply_obj(it, f, args):
    if f.cls == 'comparator': return f.f['fn'](*args)
    raise Unsupported('call of ' + f.cls)
def natural(it):
    o = Obj('comparator'); o.f['fn'] = lambda a, b: compare_values(it, a, b); o.natural = True; return o

FMT = {'uuuu-MM-dd': 'date', 'uuuu-MM-dd HH:mm:ss': 'dt'}
def parse_temporal(it, what, args):
    """LocalDate.parse / LocalDateTime.parse"""
    if it.isnull(args[0]): it.npe('parse')
    s = sterm(args[0])
    key = what
    if len(args) > 1:
        f = args[1]
        if not isinstance(f, Obj): raise Unsupported('formatter')
        key = '%s|%s|%s' % (what, f.f.get('pattern'), f.f.get('style'))
    if key in ('date|uuuu-MM-dd|STRICT', 'dt|uuuu-MM-dd HH:mm:ss|STRICT'): ok, v = (X.isdate(s), V.Date(X.dateval(s))) if what == 'date' else (X.isdt(s), V.DT(X.dtval(s)))
    elif key == 'date':
        # ISO_LOCAL_DATE: the same texts as the strict pattern
        ok, v = X.isdate(s), V.Date(X.dateval(s))
    else:
        # another pattern or resolver style: parses what the strict pattern parses alike, and nothing is known of the rest
        base = key.replace('SMART', 'STRICT').replace('LENIENT', 'STRICT').replace('yyyy', 'uuuu')
        acc = z3.Function('parses_' + key, S, X.B)(s); alt = z3.Function('parsed_' + key, S, X.I)(s)
        if base == 'date|uuuu-MM-dd|STRICT' and 'yyyy' not in key: ok, v = z3.Or(X.isdate(s), acc), V.Date(z3.If(X.isdate(s), X.dateval(s), alt))
        elif base == 'dt|uuuu-MM-dd HH:mm:ss|STRICT' and 'yyyy' not in key: ok, v = z3.Or(X.isdt(s), acc), V.DT(z3.If(X.isdt(s), X.dtval(s), alt))
        else: ok, v = acc, (V.Date(alt) if what == 'date' else V.DT(alt))
    if not br(ok): throw('java/time/format/DateTimeParseException', 'no date')
    a = Any(v); touch(a.v); return a

def parse_int(it, a, bits):
    if it.isnull(a): throw(EXC('NumberFormatException'), 'null')
    s = sterm(a)
    if not br(z3.And(X.isint(s), X.in32(X.intval(s)) if bits == 32 else X.in64(X.intval(s)))): throw(EXC('NumberFormatException'), 'not an integer')
    c = X.content(s)
    return int(c) if c is not None else X.intval(s)

def decode_int(it, a, bits):
    """Integer.decode, Long.decode: a leading zero or sign, # and 0x change the radix"""
    if it.isnull(a): it.npe('decode')
    s = sterm(a); c = X.content(s)
    rng = X.in32 if bits == 32 else X.in64
    if c is not None:
        m = re.fullmatch(r'([+-]?)(0[xX]|#|0(?=.))?([0-9a-fA-F]+)', c)
        try: n = int(m.group(1) + m.group(3), {None: 10, '0': 8}.get(m.group(2), 16)) if m else None
        except ValueError: n = None
        if n is None or not -2 ** (bits - 1) <= n < 2 ** (bits - 1): throw(EXC('NumberFormatException'), 'not an integer')
        return n
    ch = z3.Function('charat', S, X.I, X.I); at = lambda i: ch(s, z3.IntVal(i))
    lead = z3.Or(z3.And(at(0) == 48, X.slen(s) > 1), z3.And(z3.Or(at(0) == 43, at(0) == 45), at(1) == 48, X.slen(s) > 2))
    if br(z3.And(X.isint(s), z3.Not(lead))):
        if not br(rng(X.intval(s))): throw(EXC('NumberFormatException'), 'out of range')
        return X.intval(s)
    n = z3.Function('decoded', S, X.I)(s)
    if not br(z3.And(z3.Function('decodes', S, X.B)(s), rng(n))): throw(EXC('NumberFormatException'), 'not an integer')
    return n

@at_init
def lib_static(it, owner, name, desc, args):
    it.usedlib.add('%s.%s' % (owner, name))
    pts, rt = parse_desc(desc)
    o = owner.split('/')[-1]
    if (owner, name) in EXTRA_STATIC: return EXTRA_STATIC[(owner, name)](it, args, desc)
    if owner == 'java/util/Optional' or o in ('OptionalInt', 'OptionalLong'):
        if name == 'of':
            if it.isnull(args[0]): it.npe('Optional.of')
            return some(args[0])
        if name == 'ofNullable': return opt_of_nullable(it, args[0])
        if name == 'empty': return none()
    if o == 'Objects':
        if name == 'isNull': return int(it.isnull(args[0]))
        if name == 'nonNull': return int(not it.isnull(args[0]))
        if name == 'equals': return ret_bool(zbool(null_equals(it, args[0], args[1])))
        if name == 'requireNonNull':
            if it.isnull(args[0]): it.npe('requireNonNull')
            return args[0]
        if name == 'toString': return value_string(it, args[0]) if len(args) == 1 or not it.isnull(args[0]) else args[1]
        if name in ('hash', 'hashCode'): return P().approx('hash', X.I)
        if name == 'requireNonNullElse': return args[0] if not it.isnull(args[0]) else args[1]
    if o in ('Integer', 'Long', 'Boolean', 'Double', 'Float', 'Character'):
        r = wrapper_static(it, o, name, pts, rt, args)
        if r is not NotImplemented: return r
    if owner == BIGI and name == 'valueOf': return bigint(zi(args[0]))
    if owner == 'java/math/BigDecimal' and name == 'valueOf':
        if pts[0] == 'D':
            f, e = real_of_double(args[0])
            d = dterm(args[0])
            if not br(f): throw(EXC('NumberFormatException'), 'Infinite or NaN')
            return dec(X.printed(d), X.printedscale(d))
        if pts == ['J']: return dec(z3.ToReal(zi(args[0])), 0)
        k = conc(args[1])
        if k is not None: return dec(z3.ToReal(zi(args[0])) / z3.RealVal(10 ** k) if k >= 0 else z3.ToReal(zi(args[0])) * 10 ** -k, k)
    if o == 'Math' or o == 'StrictMath': return math_static(it, name, pts, args)
    if o == 'String':
        if name == 'valueOf':
            x = args[0]
            if pts[0] == 'Z': x = z3.simplify(zbool(x))
            if pts[0] == 'C': raise Unsupported('String.valueOf(char)')
            return value_string(it, x)
        if name == 'format' or name == 'join' and False: return strv(P().approx('formatted', S)) if P() is not None else jstr('?')
        if name == 'join': return seqs.join(it, args)
    if owner == 'java/time/LocalDate' and name == 'parse': return parse_temporal(it, 'date', args)
    if owner == 'java/time/LocalDateTime' and name == 'parse': return parse_temporal(it, 'dt', args)
    if owner == 'java/time/LocalDate' and name == 'now':
        if args: raise Unsupported('LocalDate.now(zone)')
        t = z3.Const('today', X.I); return Any(V.Date(t))
    if owner == 'java/time/LocalDate' and name == 'ofEpochDay': return Any(V.Date(zi(args[0])))
    if owner == 'java/time/format/DateTimeFormatter' and name == 'ofPattern':
        f = Obj(owner); f.f['pattern'] = text(args[0]); f.f['style'] = 'SMART'; return f
    if o == 'ChronoUnit' and name == 'values': raise Unsupported('ChronoUnit.values')
    if o == 'Pair' or o == 'ImmutablePair':
        if name == 'of' and len(args) == 2:
            p = Obj('pair'); p.f['l'], p.f['r'] = args; return p
    if o == 'StringUtils':
        a = args[0]
        if name in ('isBlank', 'isNotBlank', 'isEmpty', 'isNotEmpty'):
            if it.isnull(a): return int('Not' not in name)
            s = sterm(a); c = X.content(s)
            b = (X.isblank(s) if 'Blank' in name else X.slen(s) == 0)
            if c is not None: b = c.strip() == '' if 'Blank' in name else c == ''
            elif 'Blank' in name: P().assume(z3.Implies(X.slen(s) == 0, X.isblank(s)))
            b = zbool(b)
            return ret_bool(z3.Not(b) if 'Not' in name else b)
        if name == 'equals': return ret_bool(zbool(null_equals(it, args[0], args[1])))
    if o == 'Try':
        if name in ('of', 'ofCallable', 'ofSupplier'): return try_run(it, lambda: it.apply(args[0]))
        if name == 'success': return try_success(args[0])
        if name == 'failure': return try_failure(exc_of(it, args[0]))
    if o in ('Arrays', 'Collections', 'List', 'Set', 'Stream', 'IntStream', 'LongStream', 'Collectors', 'Comparator', 'Map', 'StreamSupport', 'EnumSet'):
        return seqs.static_call(it, o, name, desc, args)
    if owner == 'java/lang/Enum' and name == 'valueOf':
        n = text(args[1])
        if n is None:
            if it.isnull(args[1]): it.npe('Name is null')
            t = sterm(args[1]); touch_s(t); es = it.enum_consts(args[0].name)
            ks = [X.sconst(text(e.f['$name'])) for e in es]
            for k in ks: touch_s(k)
            i = P().choose([t == k for k in ks] + [z3.And([t != k for k in ks])])
            if i < len(es): return es[i]
            throw('java/lang/IllegalArgumentException', 'No enum constant')
        for e in it.enum_consts(args[0].name):
            if text(e.f['$name']) == n: return e
        throw(EXC('IllegalArgumentException'), 'No enum constant')
    if owner == 'java/util/function/Function' and name == 'identity': return PyLam(lambda x: x)
    if o == 'Predicate' and name == 'not':
        f = args[0]; return PyLam(lambda x: z3.Not(zbool(it.apply(f, x))))
    if o == 'Predicate' and name == 'isEqual':
        a = args[0]; return PyLam(lambda x: zbool(null_equals(it, a, x)))
    if o == 'Locale' and name == 'getDefault': return lib_enum('java/util/Locale', '<default>')
    raise Unsupported('%s.%s%s' % (owner, name, desc))
EXTRA_STATIC = {}

def wrapper_static(it, o, name, pts, rt, args):
    if name == 'valueOf' and pts and pts[0] in 'IJZDF' and len(pts[0]) == 1:
        return boxed(args[0], z=(o == 'Boolean'))
    if o in ('Integer', 'Long') and name in ('parseInt', 'parseLong', 'valueOf') and pts == ['Ljava/lang/String;']:
        r = parse_int(it, args[0], 32 if o == 'Integer' else 64)
        if name == 'valueOf': return Any(V.Int(zi(r))) if o == 'Integer' else Any(V.Long(zi(r)))
        return r if o == 'Integer' else Lg(r)
    if o in ('Integer', 'Long') and name in ('parseInt', 'parseLong', 'valueOf') and pts == ['Ljava/lang/String;', 'I'] and conc(args[1]) == 10:
        r = parse_int(it, args[0], 32 if o == 'Integer' else 64)
        if name == 'valueOf': return Any(V.Int(zi(r))) if o == 'Integer' else Any(V.Long(zi(r)))
        return r if o == 'Integer' else Lg(r)
    if o in ('Integer', 'Long') and name == 'decode':
        r = decode_int(it, args[0], 32 if o == 'Integer' else 64); return Any(V.Int(zi(r))) if o == 'Integer' else Any(V.Long(zi(r)))
    if o == 'Boolean' and name in ('parseBoolean', 'valueOf') and pts == ['Ljava/lang/String;']:
        b = 0 if it.isnull(args[0]) else ret_bool(X.istrue(sterm(args[0]))) if text(args[0]) is None else int(text(args[0]).lower() == 'true')
        return b if name == 'parseBoolean' else Any(V.Bool(zbool(b)))
    if name == 'compare' and o in ('Integer', 'Long'):
        import interp
        return interp.cmp3(zint(args[0]), zint(args[1]))
    if name == 'compare' and o == 'Boolean': return norm(zi(args[0]) - zi(args[1]))
    if name == 'compare' and o == 'Double':
        import interp
        return dcmp(it, args[0], args[1], 1)
    if name == 'signum' and o in ('Integer', 'Long'): t = zi(args[0]); return norm(z3.If(t > 0, z3.IntVal(1), z3.If(t == 0, z3.IntVal(0), z3.IntVal(-1))))
    if name in ('max', 'min', 'sum') and o in ('Integer', 'Long'): return math_static(it, {'sum': 'add'}.get(name, name), pts, args)
    if name == 'toString': return value_string(it, args[0])
    if name in ('isNaN', 'isInfinite', 'isFinite') and o in ('Double', 'Float'):
        d = dterm(args[0]); P().assume(z3.Implies(X.fin(d), z3.Not(isnan(d))))
        return {'isNaN': isnan(d), 'isFinite': X.fin(d), 'isInfinite': z3.And(z3.Not(X.fin(d)), z3.Not(isnan(d)))}[name]
    if name == 'hashCode': return P().approx('hash', X.I)
    if o == 'Boolean' and name in ('logicalAnd', 'logicalOr', 'logicalXor'):
        a, b = zbool(args[0]), zbool(args[1])
        return z3.And(a, b) if name.endswith('And') else z3.Or(a, b) if name.endswith('Or') else z3.Xor(a, b)
    if o == 'Double' and name == 'parseDouble':
        s = sterm(args[0])
        if not br(z3.Function('isdouble', S, X.B)(s)): throw(EXC('NumberFormatException'), 'not a double')
        P().assume(z3.Implies(X.isdec(s), z3.Function('isdouble', S, X.B)(s)))
        d = z3.Function('doubleof', S, D)(s)
        P().assume(z3.Implies(X.isdec(s), d == X.todbl(X.decval(s)))); return Dv(d)
    return NotImplemented

def math_static(it, name, pts, args):
    import interp
    bits = 64 if pts and pts[0] == 'J' else 32
    mk = (lambda t: Lg(norm(t))) if bits == 64 else (lambda t: norm(t))
    if name in ('addExact', 'subtractExact', 'multiplyExact', 'negateExact', 'incrementExact', 'decrementExact', 'toIntExact', 'add'):
        a = zint(args[0]); b = zint(args[1]) if len(args) > 1 else None
        a = norm(a); b = norm(b) if b is not None else None
        r = {'addExact': lambda: a + b, 'add': lambda: a + b, 'subtractExact': lambda: a - b, 'multiplyExact': lambda: imul(a, b), 'negateExact': lambda: -a, 'incrementExact': lambda: a + 1, 'decrementExact': lambda: a - 1, 'toIntExact': lambda: a}[name]()
        if name == 'add': return mk(wrap(r, bits))
        if name == 'toIntExact': bits = 32; mk = lambda t: norm(t)
        if isinstance(r, int): ok = -2**(bits-1) <= r < 2**(bits-1)
        else: ok = br(X.in32(r) if bits == 32 else X.in64(r))
        if not ok: throw(EXC('ArithmeticException'), 'overflow')
        return mk(r)
    if pts and pts[0] in ('I', 'J'):
        a = norm(zint(args[0])); b = norm(zint(args[1])) if len(args) > 1 else None
        z = lambda t: zi(t)
        if name == 'max': return mk(z3.If(z(a) >= z(b), z(a), z(b)))
        if name == 'min': return mk(z3.If(z(a) <= z(b), z(a), z(b)))
        if name == 'abs': return mk(wrap(z3.If(z(a) >= 0, z(a), -z(a)), bits))
        if name in ('floorMod', 'floorDiv'):
            if br(z(b) == 0): throw(EXC('ArithmeticException'), '/ by zero')
            q = irem(a, b); r = z3.If(z3.And(zi(q) != 0, (zi(q) < 0) != (z(b) < 0)), zi(q) + z(b), zi(q))
            if name == 'floorMod': return mk(r)
            return mk(wrap(z3.Function('floordiv', X.I, X.I, X.I)(z(a), z(b)), bits))
    if name == 'pow':
        a, b = dterm(args[0]), dterm(args[1])
        return Dv(X.dpow(a, b))
    if name in ('floor', 'ceil', 'rint', 'sqrt', 'abs', 'signum', 'cbrt', 'exp', 'log'):
        a = dterm(args[0]); r = z3.Function('math_' + name, D, D)(a)
        if name in ('floor', 'ceil', 'abs'):
            e = X.exact(a); P().assume(X.fin(r) == X.fin(a), X.exact(r) == {'floor': z3.ToReal(z3.ToInt(e)), 'ceil': -z3.ToReal(z3.ToInt(-e)), 'abs': z3.If(e >= 0, e, -e)}[name])
        return Dv(r)
    if name == 'round':
        f, e = real_of_double(args[0])
        if br(f): t = z3.ToInt(e + z3.Q(1, 2)); return Lg(z3.If(t > X.MAX64, z3.IntVal(X.MAX64), z3.If(t < X.MIN64, z3.IntVal(X.MIN64), t)))
    if name in ('max', 'min'):
        a, b = args; fa, ea = real_of_double(a); fb, eb = real_of_double(b)
        if br(z3.And(fa, fb)): return (a if br(ea >= eb) else b) if name == 'max' else (a if br(ea <= eb) else b)
    raise Unsupported('Math.' + name)
