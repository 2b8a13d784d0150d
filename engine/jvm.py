"""Symbolic interpreter for the bytecode of the classes under verification."""
import json, re, z3
import vals as X
from vals import V, S, D
import core
from core import P, JavaExc, Unsupported, Infeasible

# ---------------------------------------------------------------- values
class Lg:                      # a primitive long
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
class Dv:                      # a primitive double: a term of sort D (or a python float constant)
    __slots__ = ('t', 'flt')
    def __init__(self, t, flt=False): self.t, self.flt = t, flt
class Any:
    """a data value: a term of V"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
class Obj:
    n = 0
    def __init__(self, cls, **f):
        Obj.n += 1
        self.cls, self.f, self.id = cls, f, Obj.n
        self.owner = P()       # the path that allocated it; None: exists before the call
    def __repr__(self): return '<%s %s>' % (self.cls.split('/')[-1], {k: v for k, v in self.f.items()} if len(self.f) < 4 else '..')
class JClass:
    def __init__(self, name): self.name = name
class Lam:
    def __init__(self, handle, captured, inst, iface): self.h, self.captured, self.inst, self.iface = handle, captured, inst, iface
class PyLam:
    """a function object given by Python code"""
    def __init__(self, fn): self.fn = fn
class SNode:
    """an object of the tree whose class and fields are unknown; nid identifies it"""
    def __init__(self, nid, base): self.nid, self.base = nid, base
class Cell: pass

class Seq:
    """contents of a list, array or stream: concrete items, or n elements given by at(j)"""
    __slots__ = ('items', 'n', 'fn', 'tag', 'flat')      # flat: (n, block) when the sequence is the concatenation of the blocks 0..n-1
    def __init__(self, items=None, n=None, fn=None, tag=None, flat=None): self.items, self.n, self.fn, self.tag, self.flat = items, n, fn, tag, flat
    def size(self): return len(self.items) if self.items is not None else self.n
    def at(self, j):
        if self.items is not None:
            if isinstance(j, int): return self.items[j]
            for k, x in enumerate(self.items[:-1]):
                if P().branch(j == k): return x
            return self.items[-1]
        return self.fn(j)

class JList(Obj):
    def __init__(self, seq, mutable=True, cls='java/util/ArrayList'):
        Obj.__init__(self, cls); self.seq, self.mutable = seq, mutable
class JArr(Obj):
    def __init__(self, seq, elem='Ljava/lang/Object;'):
        Obj.__init__(self, '['+elem); self.seq, self.elem = seq, elem
class JMap(Obj):
    """a map with concretely known keys (key python-hashable) or a general association list"""
    def __init__(self, cls): Obj.__init__(self, cls); self.d = []      # list of [key, value]
class Stream(Obj):
    par = False
    def __init__(self, seq, prim=None, ops=()): Obj.__init__(self, 'java/util/stream/Stream'); self.seq, self.prim, self.ops = seq, prim, list(ops)

def jint(n): return n
def box_int(t): return Any(V.Int(z3.IntVal(t) if isinstance(t, int) else t))
def zint(t):
    """the z3 Int (or python int) of a primitive int/boolean"""
    if isinstance(t, bool): return int(t)
    if isinstance(t, z3.BoolRef):
        if z3.is_true(t): return 1
        if z3.is_false(t): return 0
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(t, Lg): return t.t
    return t
def zi(t):
    t = zint(t)
    return z3.IntVal(t) if isinstance(t, int) else t
def conc(t):
    """python int if t is concrete, else None"""
    t = zint(t)
    if isinstance(t, int): return t
    if z3.is_int_value(t): return t.as_long()
    s = z3.simplify(t)
    return s.as_long() if z3.is_int_value(s) else None
def norm(t):
    c = conc(t)
    return t if c is None else c
def wrap(t, bits):
    lo, hi, m = -2**(bits-1), 2**(bits-1)-1, 2**bits
    if isinstance(t, int): return (t - lo) % m + lo
    c = conc(t)
    if c is not None: return (c - lo) % m + lo
    return z3.If(z3.And(t >= lo, t <= hi), t, (t - lo) % m + lo)

def jstr(txt): return Any(V.Str(X.sconst(txt)))
def text(a):
    """the content of a string value, if it is constant"""
    if isinstance(a, Any) and X.is_cons(a.v, 'Str'): return X.content(a.v.arg(0))
    return None

def touch(v):
    """adds what holds of every value, for a value that is looked at"""
    p = P()
    if p is None: return
    k = v.get_id()
    if k in p.touched: return
    p.touched.add(k); p.ghost.setdefault('keep', []).append(v)
    p.assume(*[z3.simplify(f) if False else f for f in X.wf(v)])
    if X.kind_syn(v) is None: p.ghost.setdefault('values', []).append(v)

def touch_s(s):
    p = P(); k = ('s', s.get_id())
    if p is None or k in p.touched: return
    p.touched.add(k); p.ghost.setdefault('keep', []).append(s)
    p.assume(*X.string_facts(s))

JCLS = {'java/lang/Boolean': ['Bool'], 'java/lang/Integer': ['Int'], 'java/lang/Long': ['Long'], 'java/lang/Float': ['Flt'], 'java/lang/Double': ['Dbl'],
        'java/math/BigDecimal': ['Dec'], 'java/lang/String': ['Str'], 'java/lang/CharSequence': ['Str'], 'org/apache/maven/artifact/versioning/ComparableVersion': ['Ver'],
        'java/time/LocalDate': ['Date'], 'java/time/chrono/ChronoLocalDate': ['Date'], 'java/time/LocalDateTime': ['DT'], 'java/util/Collection': ['Coll'], 'java/lang/Iterable': ['Coll'],
        '[Ljava/lang/Object;': ['Arr'], 'java/util/Map': ['Map'], 'java/lang/Number': ['Int', 'Long', 'Flt', 'Dbl', 'Dec'],
        'java/lang/Comparable': ['Bool', 'Int', 'Long', 'Flt', 'Dbl', 'Dec', 'Str', 'Ver', 'Date', 'DT'], 'java/time/temporal/Temporal': ['Date', 'DT'], 'java/time/temporal/TemporalAccessor': ['Date', 'DT'],
        'java/lang/Object': list(X.KINDS[1:])}
KCLS = {'Bool': 'java/lang/Boolean', 'Int': 'java/lang/Integer', 'Long': 'java/lang/Long', 'Flt': 'java/lang/Float', 'Dbl': 'java/lang/Double', 'Dec': 'java/math/BigDecimal', 'Str': 'java/lang/String',
        'Ver': 'org/apache/maven/artifact/versioning/ComparableVersion', 'Date': 'java/time/LocalDate', 'DT': 'java/time/LocalDateTime', 'Coll': 'java/util/Collection', 'Arr': '[Ljava/lang/Object;', 'Map': 'java/util/Map', 'Oth': '?other'}
SUBCOLL = {'java/util/List', 'java/util/Set', 'java/util/ArrayList'}      # kinds of collection the model does not tell apart

def kind(a, among=None):
    """decides the kind of a data value (null included)"""
    v = a.v
    k = X.kind_syn(v)
    if k: return k
    touch(v)
    ks = X.kinds_of(v)
    if len(ks) == 1: return ks[0]
    return ks[P().choose([X.isk(k, v) for k in ks])]

def known(a):
    """replaces a value by its constructor term once its kind is decided"""
    k = kind(a)
    if X.is_cons(a.v): return k
    return k

# library classes whose objects keep state between calls (not to be shared by threads)
UNSAFE = {'java/text/' + c for c in ('SimpleDateFormat', 'DateFormat', 'DecimalFormat', 'NumberFormat', 'MessageFormat', 'ChoiceFormat', 'BreakIterator')} | {'java/util/' + c for c in
          ('Calendar', 'GregorianCalendar', 'Scanner', 'Formatter', 'StringJoiner', 'StringTokenizer', 'BitSet')} | {'java/util/regex/Matcher', 'java/lang/StringBuilder', 'java/security/MessageDigest'}
# the superclasses of what the models throw (a class the code does not mention is not in the dump)
EXCS = {}
for _l in '''Throwable Object|Exception Throwable|Error Throwable|RuntimeException Exception|IllegalArgumentException RuntimeException|IllegalStateException RuntimeException
NumberFormatException IllegalArgumentException|IndexOutOfBoundsException RuntimeException|StringIndexOutOfBoundsException IndexOutOfBoundsException
ArrayIndexOutOfBoundsException IndexOutOfBoundsException|ArithmeticException RuntimeException|NullPointerException RuntimeException|ClassCastException RuntimeException
ArrayStoreException RuntimeException|NegativeArraySizeException RuntimeException|UnsupportedOperationException RuntimeException|CloneNotSupportedException Exception
StackOverflowError VirtualMachineError|VirtualMachineError Error|OutOfMemoryError VirtualMachineError|AssertionError Error|LinkageError Error|ExceptionInInitializerError LinkageError
MatchException RuntimeException|java/util/NoSuchElementException RuntimeException|java/util/InputMismatchException java/util/NoSuchElementException
java/util/ConcurrentModificationException RuntimeException|java/util/EmptyStackException RuntimeException|java/util/MissingResourceException RuntimeException
java/util/regex/PatternSyntaxException IllegalArgumentException|java/time/DateTimeException RuntimeException|java/time/format/DateTimeParseException java/time/DateTimeException
java/util/IllegalFormatException IllegalArgumentException|java/util/concurrent/ExecutionException Exception|InterruptedException Exception
java/io/IOException Exception|java/io/UncheckedIOException RuntimeException|java/text/ParseException Exception'''.replace('\n', '|').split('|'):
    _a, _b = [x if '/' in x else 'java/lang/' + x for x in _l.split()]
    EXCS[_a] = _b
class Interp:
    def __init__(self, dump):
        self.classes, self.ext = dump['classes'], dump['external']
        self.statics, self.inited = {}, set()
        self.methods = {}
        for cn, c in self.classes.items():
            for m in c['methods']: self.methods[(cn, m['name'], m['desc'])] = m
        self.strs = {}
        self.contracts = {}          # (cls,name,desc) -> python function(interp, args) used instead of the body
        self.hooks = []              # functions(interp, cls, name, desc, args) -> NotImplemented or result; tried before the body
        self.stack = []
        self.maxdepth = 200
        self.under = set()           # methods executed symbolically
        self.usedlib = set()
        self.bound = None            # bounded mode: longest symbolic list
        self.bounded_used = False
        self.uses = set()            # calls of library objects that keep state and exist before the call
        self.frame = []              # frame violations
        self.external_stub = None
        self.held = 0                # monitors held
        self.onwrite = None
        self.trace = self.onlock = None      # construct_first: called before a write and at a lock, outside of paths
        self.lost = set()            # fields of older objects written at a generic index
    # ------------------------------------------------ classes
    def supers(self, c):
        if not hasattr(self, '_sup'): self._sup = {}
        if c not in self._sup: self._sup[c] = self.supers0(c)
        return self._sup[c]
    def supers0(self, c):
        seen, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x is None or x in seen: continue
            seen.append(x)
            d = self.classes.get(x) or self.ext.get(x)
            if d: todo += [d['super']] + list(d['interfaces'])
            elif x in EXCS: todo.append(EXCS[x])
        if 'java/lang/Object' not in seen: seen.append('java/lang/Object')
        return seen
    def subclass(self, c, d): return d in self.supers(c) if not c.startswith('[') else (d in (c, 'java/lang/Object', '[Ljava/lang/Object;'))
    def concrete_subs(self, base):
        if not hasattr(self, '_subs'): self._subs = {}
        if base not in self._subs: self._subs[base] = self.concrete_subs0(base)
        return self._subs[base]
    def concrete_subs0(self, base):
        return [c for c in self.classes if not (self.classes[c]['access'] & 0x600) and base in self.supers(c)]
    def find(self, cls, name, desc):
        for c in self.supers(cls):
            m = self.methods.get((c, name, desc))
            if m and not (m['access'] & 0x400): return c, m
        return None, None
    def init(self, cls):
        if cls in self.inited or cls not in self.classes: return
        self.inited.add(cls)
        if self.classes[cls]['super'] in self.classes: self.init(self.classes[cls]['super'])
        for f in self.classes[cls]['fields']:
            if f[2] & 8: self.statics[(cls, f[0])] = self.const(f[3]) if f[3] else self.default(f[1])
        m = self.methods.get((cls, '<clinit>', '()V'))
        if m:
            saved, core.Path.cur = core.Path.cur, None
            try: self.run(cls, m, [])
            finally: core.Path.cur = saved
    def default(self, d):
        if d == 'J': return Lg(0)
        if d in 'DF': return Dv(0.0)
        return 0 if d in 'IZBCS' else None
    def const(self, c):
        t = c[0]
        if t == 'I': return c[1]
        if t == 'J': return Lg(c[1])
        if t == 'D' or t == 'F': return Dv(float(c[1]))
        if t == 'S': return jstr(c[1])
        if t == 'T': return JClass(c[1][1:-1] if c[1].startswith('L') else c[1])
        raise Unsupported('constant ' + t)
    def new_exc(self, cls, msg=None): return JavaExc(cls, msg)
    def npe(self, why=''): raise JavaExc('java/lang/NullPointerException', why)
    # ------------------------------------------------ null tests
    def isnull(self, x):
        """whether a reference is null (decided)"""
        if x is None: return True
        if isinstance(x, Any):
            if X.is_cons(x.v): return X.is_cons(x.v, 'Null')
            touch(x.v)
            return P().branch(X.isk('Null', x.v))
        if isinstance(x, SNode) and getattr(x, 'nullable', None) is not None: return P().branch(x.nullable)
        return False
    def subcoll(self, x, cls):
        """a data collection is of some class: a list, a set, or neither"""
        if not self.instance(x, 'java/util/Collection'): return False
        c = X.sel('Coll', x.v)
        of = lambda n: z3.Function('is_' + n.split('/')[-1], c.sort(), X.B)(c)
        for k in ('List', 'Set', 'Queue', 'Deque'):
            if cls != 'java/util/' + k and cls.endswith(k) : P().assume(z3.Implies(of(cls), of('java/util/' + k)))
        P().assume(z3.Not(z3.And(of('java/util/List'), of('java/util/Set'))))
        return P().branch(of(cls))
    def instance(self, x, cls):
        """instanceof, decided; x not null"""
        if isinstance(x, Any):
            k = X.kind_syn(x.v)
            if cls.startswith('['): ks = ['Arr'] if cls == '[Ljava/lang/Object;' else []
            elif cls in JCLS: ks = JCLS[cls]
            elif cls in SUBCOLL: return self.subcoll(x, cls)
            elif cls in self.classes: ks = []          # data values are not objects of the library's own classes
            else: raise Unsupported('instanceof ' + cls)
            if k: return k in ks
            touch(x.v)
            if not ks: return False
            return P().branch(X.isany(ks, x.v))
        if isinstance(x, SNode):
            cs = self.concrete_subs(x.base)
            yes = [c for c in cs if self.subclass(c, cls)]
            if not yes: return False
            if len(yes) == len(cs): return True
            r = P().branch(z3.Or([self.ncls(x) == self.clsidx(c) for c in yes]))
            self.narrow(x, yes if r else [c for c in cs if c not in yes])
            return r
        if isinstance(x, JArr): return cls in (x.cls, 'java/lang/Object') or (cls == '[Ljava/lang/Object;' and x.elem.startswith(('L', '[')))
        if isinstance(x, Obj):
            if isinstance(x, JList): return cls in ('java/util/List', 'java/util/Collection', 'java/lang/Iterable', 'java/lang/Object') or cls == x.cls
            if isinstance(x, JMap): return cls in ('java/util/Map', 'java/lang/Object', x.cls)
            return self.subclass(x.cls, cls)
        if isinstance(x, (Lam, PyLam)): return True
        if isinstance(x, JClass): return cls in ('java/lang/Class', 'java/lang/Object')
        raise Unsupported('instanceof on %r' % (x,))
    # ------------------------------------------------ symbolic tree objects
    ncls_f = z3.Function('ncls', X.I, X.I)
    def ncls(self, n): return self.ncls_f(n.nid)
    def clsidx(self, c): return z3.IntVal(sorted(self.classes).index(c))
    def narrow(self, n, cs): pass
    def node_class(self, n):
        cs = self.concrete_subs(n.base)
        p = P()
        known = p.ghost.get('cls', {}) if not p.sbs else {}
        k = n.nid.get_id()
        if k in known: return known[k][0]
        i = p.choose(self.cls_conds(n, cs))
        if not p.sbs: p.ghost['cls'] = dict(known); p.ghost['cls'][k] = (cs[i], n.nid)
        return cs[i]
    def cls_conds(self, n, cs):
        if not hasattr(self, '_cc'): self._cc = {}
        k = (n.nid.get_id(), n.base)
        if k not in self._cc: self._cc[k] = (n.nid, [self.ncls(n) == self.clsidx(c) for c in cs])
        return self._cc[k][1]
    node_wf = None
    def node_field(self, n, owner, name, desc):
        r = self.node_field0(n, owner, name, desc)
        if self.node_wf: self.node_wf(n, owner, name, r)
        return r
    def node_field0(self, n, owner, name, desc):
        """field of a symbolic tree object"""
        key = 'fld_%s_%s' % (owner.split('/')[-1], name)
        if desc in ('Ljava/lang/Object;', 'Ljava/lang/String;'):
            t = z3.Function(key, X.I, V)(n.nid); touch(t)
            if desc.endswith('String;'): P().assume(X.isany(['Null', 'Str'], t))
            return Any(t)
        if desc.startswith('Ljava/util/List'):
            ln = z3.Function(key + '_len', X.I, X.I)(n.nid); P().assume(ln >= 0)
            el = z3.Function(key + '_item', X.I, X.I, X.I)
            base = self.node_base
            return JList(self.symseq(ln, lambda j: SNode(el(n.nid, zi(j)), base), tag=('items', n.nid)), mutable=False, cls='java/util/List')
        if desc.startswith('L') and desc[1:-1] in self.classes:
            c = desc[1:-1]
            if self.is_enum(c):
                consts = self.enum_consts(c)
                t = z3.Function(key, X.I, X.I)(n.nid)
                i = P().choose([t == k for k in range(len(consts))] + [z3.Or(t < 0, t >= len(consts))])
                return consts[i] if i < len(consts) else None
            if self.node_base in self.supers(c):
                m = SNode(z3.Function(key, X.I, X.I)(n.nid), c)
                m.nullable = z3.Function(key + '_null', X.I, X.B)(n.nid)
                return m
        if desc == 'Z': return z3.Function(key, X.I, X.B)(n.nid)
        if desc == 'I':
            t = z3.Function(key, X.I, X.I)(n.nid); P().assume(X.in32(t)); return t
        raise Unsupported('field %s.%s of a symbolic node' % (owner, name))
    node_base = 'com/github/sidhant92/boolparser/domain/logical/Node'
    def is_enum(self, c): return c in self.classes and 'java/lang/Enum' in self.supers(c)
    def enum_consts(self, c):
        self.init(c)
        arr = self.statics.get((c, '$VALUES'))
        return arr.seq.items
    def enum_const(self, c, name):
        for e in self.enum_consts(c):
            if text(e.f['$name']) == name: return e
        raise Unsupported('no constant %s in %s' % (name, c))
    def symseq(self, n, fn, tag=None):
        """a sequence of symbolic length; in bounded mode its length is decided"""
        c = conc(n)
        if c is None and self.bound is not None:
            p = P()
            self.bounded_used = True
            p.assume(n >= 0, n <= self.bound)
            c = p.choose([n == k for k in range(self.bound + 1)])
        if c is not None: return Seq(items=[fn(z3.IntVal(k)) for k in range(c)], tag=tag)
        return Seq(n=n, fn=fn, tag=tag)
    def coll_seq(self, a):
        k = kind(a)
        i = X.sel(k, a.v)
        if k not in ('Coll', 'Arr'): raise Unsupported('elements of ' + k)
        P().assume(X.clen(i) >= 0, X.clen(i) <= 2147483647)
        def el(j):
            t = X.celem(i, zi(j)); touch(t); P().assume(z3.Not(X.isk('Null', t))); return Any(t)
        return self.symseq(X.clen(i), el, tag=('coll', i))
    # ------------------------------------------------ writes
    def writable(self, o, what):
        """frame condition: only objects allocated by the call itself are written"""
        p = P()
        if p is None:
            if self.trace: self.trace(o)
            return True
        q = p
        while q is not None:
            if o.owner is q: break
            q = q.parent
        else:
            e = '%s of an object that exists before the call (%s)%s' % (what, o.cls, ' (under a lock)' if self.held > 0 else '')
            p.events.append(('frame', e))
            if o.cls in UNSAFE: self.uses.add(e)
            if self.onwrite: self.onwrite(o, what)
            return True
        if o.owner is not p: raise Unsupported('a lambda or loop body writes an object of the enclosing call: ' + what)
        return True
    def putfield(self, o, name, val):
        self.writable(o, 'field %s' % name)
        p = P()
        if p is not None and p.parent is not None and o.owner is not p: self.lost.add((o.id, name))
        if p is not None:
            had, old = name in o.f, o.f.get(name)
            def undo():
                if had: o.f[name] = old
                else: o.f.pop(name, None)
            if o.owner is not p: p.journal.append(undo)
        o.f[name] = val
    # ------------------------------------------------ calls
    def call(self, cls, name, desc, args):
        """static or special call of a method of a class under verification"""
        c, m = self.find(cls, name, desc)
        if m is None: raise Unsupported('no method %s.%s%s' % (cls, name, desc))
        return self.invoke(c, m, args)
    def invoke(self, c, m, args):
        key = (c, m['name'], m['desc'])
        ct = self.contracts.get(key)
        if ct is not None and P() is not None:
            r = ct(self, args)
            if r is not NotImplemented: return r
        for h in self.hooks:
            if P() is not None:
                r = h(self, key, args)
                if r is not NotImplemented: return r
        return self.invoke_body(c, m, args)
    def invoke_body(self, c, m, args):
        key = (c, m['name'], m['desc'])
        if len(self.stack) > self.maxdepth: raise Unsupported('call depth')
        self.stack.append((key, args))
        if P() is not None and not m['name'].startswith('<cl'): self.under.add(key)
        sync = 1 if m['access'] & 0x20 else 0
        if sync and self.onlock: self.onlock()
        self.held += sync
        try: return self.run(c, m, args)
        finally: self.stack.pop(); self.held -= sync
    def run(self, cls, m, args):
        if not m['code']: raise Unsupported('no code: %s.%s' % (cls, m['name']))
        import interp
        return interp.execute(self, cls, m, args)
    def virtual(self, recv, owner, name, desc, args):
        """invokevirtual / invokeinterface"""
        import models
        if recv is None: self.npe('%s.%s on null' % (owner, name))
        if isinstance(recv, Any) and X.is_cons(recv.v, 'Null'): self.npe('%s.%s on null' % (owner, name))
        if isinstance(recv, Any):
            if self.isnull(recv): self.npe('%s.%s on null' % (owner, name))
            return models.value_call(self, recv, owner, name, desc, args)
        if isinstance(recv, SNode):
            if self.isnull(recv): self.npe('%s.%s on null' % (owner, name))
            for h in self.hooks:
                r = h(self, ('virtual', name, desc), [recv] + args)
                if r is not NotImplemented: return r
            c = self.node_class(recv)
            cc, m = self.find(c, name, desc)
            if m is None: raise Unsupported('%s.%s on a node' % (owner, name))
            return self.invoke(cc, m, [recv] + args)
        if isinstance(recv, models.SEnum) and name not in ('ordinal', 'equals', 'compareTo', 'hashCode'): recv = models.seqs.resolve(self, recv)
        if isinstance(recv, Obj) and recv.cls in self.classes:
            cc, m = self.find(recv.cls, name, desc)
            if m is not None: return self.invoke(cc, m, [recv] + args)
        return models.lib_call(self, recv, owner, name, desc, args)
    def static(self, owner, name, desc, args):
        import models
        if owner in self.classes:
            self.init(owner)
            c, m = self.find(owner, name, desc)
            if m is not None: return self.invoke(c, m, args)
        return models.lib_static(self, owner, name, desc, args)
    # ------------------------------------------------ function objects
    def apply(self, f, *args):
        args = list(args)
        if isinstance(f, PyLam): return f.fn(*args)
        if f is None: self.npe('null function')
        if isinstance(f, Lam):
            tag, owner, name, desc, iface = f.h
            allargs = list(f.captured) + args
            pts, rt = parse_desc(desc)
            ipts, irt = parse_desc(f.inst)
            # the arguments of the interface method, as the implementation takes them
            want = list(pts)
            if tag in (5, 7, 9): want = ['L' + owner + ';'] + want
            if tag == 8: pass
            nc = len(f.captured)
            for i in range(len(args)):
                if nc + i < len(want): allargs[nc + i] = adapt(self, allargs[nc + i], want[nc + i], ipts[i] if i < len(ipts) else None)
            if tag == 6: r = self.static(owner, name, desc, allargs)
            elif tag in (5, 9): r = self.virtual(allargs[0], owner, name, desc, allargs[1:])
            elif tag == 7:
                c, m = self.find(owner, name, desc)
                r = self.invoke(c, m, allargs)
            elif tag == 8:
                import models
                r = models.construct(self, owner, desc, allargs); rt = 'L' + owner + ';'
            else: raise Unsupported('method handle kind %d' % tag)
            return adapt(self, r, irt, rt)
        if isinstance(f, Obj):
            # an object of a class that implements the functional interface, or a library comparator
            import models
            if f.cls in self.classes:
                for c in self.supers(f.cls):
                    for (cc, nme, dsc), m in self.methods.items():
                        if cc == c and not (m['access'] & 0x408) and nme not in ('<init>', 'equals', 'hashCode', 'toString') and len(parse_desc(dsc)[0]) == len(args):
                            return self.invoke(cc, m, [f] + args)
            return models.apply_obj(self, f, args)
        raise Unsupported('call of %r' % (f,))

def parse_desc(d):
    i, ps = 1, []
    while d[i] != ')':
        j = i
        while d[j] == '[': j += 1
        j = d.index(';', j) + 1 if d[j] == 'L' else j + 1
        ps.append(d[i:j]); i = j
    return ps, d[i+1:]

def adapt(it, x, to, frm=None):
    """boxing and unboxing of method references"""
    import models
    if to == 'V': return None
    if to in 'IZJDFSBC':
        if isinstance(x, Any): x = models.unbox(it, x, {'I': 'Int', 'Z': 'Bool', 'J': 'Long', 'D': 'Dbl', 'F': 'Flt'}[to] if not X.kind_syn(x.v) else None)
        if to == 'J' and not isinstance(x, Lg): return Lg(zint(x))
        if to == 'D' and not isinstance(x, Dv): return models.i2d(it, x)
        return x
    if isinstance(x, Lg): return Any(V.Long(zi(x)))
    if isinstance(x, Dv): return Any(V.Dbl(models.dterm(x)))
    if frm == 'Z' or isinstance(x, (z3.BoolRef, bool)): x = models.zbool(x)
    if isinstance(x, (z3.BoolRef, bool)): return Any(V.Bool(z3.BoolVal(x) if isinstance(x, bool) else x))
    if isinstance(x, (int, z3.ArithRef)): return box_int(x)
    return x
