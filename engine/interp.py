"""The instruction loop."""
import z3
import vals as X
from vals import V
from core import P, JavaExc, Unsupported
from jvm import *
import models

def cond_bool(x, op):
    """the condition of IFxx on an int (or boolean) x against 0"""
    if isinstance(x, (z3.BoolRef, bool)):
        b = x
        if op == 'IFEQ': return (not b) if isinstance(b, bool) else z3.Not(b)
        if op == 'IFNE': return b
        x = zint(b)
    x = norm(x)
    r = {'IFEQ': lambda: x == 0, 'IFNE': lambda: x != 0, 'IFLT': lambda: x < 0, 'IFGE': lambda: x >= 0, 'IFGT': lambda: x > 0, 'IFLE': lambda: x <= 0}[op]()
    return r

def br(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    if P() is None: raise Unsupported('symbolic branch during initialisation')
    return P().branch(c)

def same_ref(it, a, b):
    """reference equality"""
    if a is b: return True
    an = a is None or (isinstance(a, Any) and X.is_cons(a.v, 'Null')); bn = b is None or (isinstance(b, Any) and X.is_cons(b.v, 'Null'))
    if an and bn: return True
    if an or bn:
        o = b if an else a
        return it.isnull(o)
    if isinstance(a, Any) and isinstance(b, Any): return same_value_ref(it, a, b)
    if isinstance(a, SNode) and isinstance(b, SNode): return P().branch(a.nid == b.nid)
    if isinstance(a, models.SEnum) or isinstance(b, models.SEnum): return br(models.zbool(models.seqs.enum_eq(it, a, b)))
    return False

def same_value_ref(it, a, b):
    """== on two references to values: the same object is an equal value; of two equal values that were made apart (boxed, computed) it is
    not known whether they are one object, but for booleans, small integers (the box caches) and string constants"""
    x, y = a.v, b.v
    if x.eq(y) and not X.is_cons(x): return True
    if not br(x == y): return False
    k = models.kind(a)
    if k == 'Bool': return True
    if k in ('Int', 'Long'):
        n = X.sel(k, x)
        if br(z3.And(n >= -128, n <= 127)): return True
    if k == 'Str' and X.content(X.sel('Str', x)) is not None and X.content(X.sel('Str', y)) is not None: return True
    return P().branch(P().fresh('sameobject', X.B))

def execute(it, cls, m, args):
    code = m['code']
    loc = {}
    i = 0
    static = m['access'] & 8
    pts, rt = parse_desc(m['desc'])
    if not static:
        loc[0] = args[0]; i = 1; args = args[1:]
    for a, pt in zip(args, pts):
        loc[i] = a
        i += 2 if pt in 'JD' else 1
    r = run_from(it, cls, m, loc, [], 0)
    return r[1]

def run_from(it, cls, m, loc, st, pc, region=None):
    """runs from pc. Without a region: ('return', value). With a region (head, end), from its head: ('back',) when the head is reached again,
    ('exit', pc) when the region is left, ('return', value)"""
    code = m['code']
    rt = m['desc'][m['desc'].index(')')+1:]
    steps = 0
    loops = models.loops_of(it, cls, m)
    while True:
        if region and steps:
            if pc == region[0]: return ('back',)
            if not region[0] <= pc <= region[1]: return ('exit', pc)
        steps += 1
        if steps > 20000: raise Unsupported('step limit in %s.%s' % (cls, m['name']))
        ins = code[pc]
        op = ins[0]
        if pc in loops and P() is not None and not (region and pc == region[0]):
            r = models.at_loop_head(it, cls, m, pc, loops[pc], loc, st)
            if r is not None:
                if isinstance(r, tuple) and r[0] == 'goto': st[:] = r[2]; pc = r[1]; continue
                if isinstance(r, tuple): return r
                pc = r; continue
        try:
            nxt = step(it, cls, m, code, ins, op, pc, loc, st)
        except JavaExc as e:
            h = handler(it, m, pc, e)
            if h is None: raise
            del st[:]; st.append(e.obj if e.obj is not None else exc_obj(e)); pc = h
            continue
        if nxt is None: pc += 1
        elif nxt is RETURN: return ('return', st.pop() if rt != 'V' else None)
        else: pc = nxt

class _R: pass
RETURN = _R()

def exc_obj(e):
    o = Obj(e.cls); o.exc = e; o.f['$msg'] = e.msg if isinstance(e.msg, Any) else None
    e.obj = o
    return o

def exc_is(it, e, t):
    """whether a thrown exception is caught by catch (t)"""
    if it.subclass(e.cls, t): return True
    if getattr(e, 'opaque', False):
        # some subclass of e.cls, not known which
        if it.subclass(t, e.cls):
            b = e.opaque.setdefault(t, None)
            if b is None: b = e.opaque[t] = P().fresh('caught_as_' + t.split('/')[-1], X.B)
            return P().branch(b)
    return False

def handler(it, m, pc, e):
    for s, en, h, t in m['tries']:
        if s <= pc < en and (t is None or exc_is(it, e, t)): return h
    return None

def cmp3(a, b):
    a, b = norm(a), norm(b)
    if isinstance(a, int) and isinstance(b, int): return (a > b) - (a < b)
    return z3.If(a < b, z3.IntVal(-1), z3.If(a == b, z3.IntVal(0), z3.IntVal(1)))

def bitop(op, a, b):
    if isinstance(a, int) and isinstance(b, int): return a & b if op == 'AND' else a | b if op == 'OR' else a ^ b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if op == 'AND' and b >= 0 and (b & (b + 1)) == 0: return zi(a) % (b + 1)
        if op == 'AND' and b < 0 and (~b & (~b + 1)) == 0: return zi(a) - zi(a) % (~b + 1)
        if op == 'XOR' and b == -1: return -1 - zi(a)
    bit = lambda t: z3.And(zi(t) >= 0, zi(t) <= 1)
    if P().entails(z3.And(bit(a), bit(b)), 1000):
        x, y = zi(a) == 1, zi(b) == 1
        return z3.If({'AND': z3.And, 'OR': z3.Or, 'XOR': z3.Xor}[op](x, y), z3.IntVal(1), z3.IntVal(0))
    return None
def arith(op, a, b, bits):
    if op == 'ADD': r = a + b
    elif op == 'SUB': r = a - b
    elif op == 'MUL': r = models.imul(a, b)
    elif op in ('DIV', 'REM'):
        cb = conc(b)
        if cb == 0 or (cb is None and P().branch(zi(b) == 0)): raise JavaExc('java/lang/ArithmeticException', jstr('/ by zero'))
        r = models.idiv(a, b) if op == 'DIV' else models.irem(a, b)
        if op == 'REM' or cb not in (None, -1): return r            # stays in range
    elif op in ('AND', 'OR', 'XOR'):
        r = bitop(op, a, b)
        if r is None: raise Unsupported('bit operation')
    elif op in ('SHL', 'SHR', 'USHR'):
        if isinstance(a, int) and isinstance(b, int):
            s = b & (bits - 1)
            r = a << s if op == 'SHL' else a >> s if op == 'SHR' else (a % 2**bits) >> s
        elif isinstance(b, int):
            s = b & (bits - 1)
            if op == 'SHL': r = a * 2**s
            elif op == 'SHR': r = (a - (a % 2**s)) / 2**s if False else models.floordiv(a, 2**s)
            else: r = a if s == 0 else models.floordiv(a % 2**bits, 2**s)
        else: raise Unsupported('shift')
    return wrap(r, bits)

def step(it, cls, m, code, ins, op, pc, loc, st):
    # ---- constants, locals
    if op == 'ACONST_NULL': st.append(None)
    elif op.startswith('ICONST_'): st.append(-1 if op.endswith('M1') else int(op[7:]))
    elif op.startswith('LCONST_'): st.append(Lg(int(op[7:])))
    elif op.startswith('DCONST_') or op.startswith('FCONST_'): st.append(Dv(float(op[7:])))
    elif op in ('BIPUSH', 'SIPUSH'): st.append(ins[2])
    elif op == 'LDC': st.append(it.const(ins[2]))
    elif op in ('ILOAD', 'LLOAD', 'ALOAD', 'DLOAD', 'FLOAD'): st.append(loc[ins[2]])
    elif op in ('ISTORE', 'LSTORE', 'ASTORE', 'DSTORE', 'FSTORE'): loc[ins[2]] = st.pop()
    elif op == 'IINC': loc[ins[2]] = norm(wrap(zint(loc[ins[2]]) + ins[3], 32))
    # ---- stack
    elif op == 'POP': st.pop()
    elif op == 'POP2':
        x = st.pop()
        if not isinstance(x, (Lg, Dv)): st.pop()
    elif op == 'DUP': st.append(st[-1])
    elif op == 'DUP_X1': st.insert(-2, st[-1])
    elif op == 'DUP_X2':
        if isinstance(st[-2], (Lg, Dv)): st.insert(-2, st[-1])
        else: st.insert(-3, st[-1])
    elif op == 'DUP2':
        if isinstance(st[-1], (Lg, Dv)): st.append(st[-1])
        else: st.extend([st[-2], st[-1]])
    elif op == 'DUP2_X1':
        if isinstance(st[-1], (Lg, Dv)): st.insert(-2, st[-1])
        else:
            a, b, c = st[-3:]; del st[-3:]; st.extend([b, c, a, b, c])
    elif op == 'SWAP': st[-1], st[-2] = st[-2], st[-1]
    elif op == 'NOP': pass
    # ---- fields
    elif op == 'GETSTATIC':
        owner = ins[2]
        if (owner, ins[3]) in it.lost: raise Unsupported('a static field is written by a lambda or loop body')
        if owner in it.classes or (owner, ins[3]) in it.statics:
            it.init(owner)
            for c in it.supers(owner):
                if (c, ins[3]) in it.statics: st.append(it.statics[(c, ins[3])]); break
            else: raise Unsupported('static field %s.%s' % (owner, ins[3]))
        else: st.append(models.lib_field(it, owner, ins[3], ins[4]))
    elif op == 'PUTSTATIC':
        vol = any(f[0] == ins[3] and f[2] & 0x40 for f in it.classes.get(ins[2], {'fields': ()})['fields'])
        if P() is not None: P().events.append(('frame', '%sstatic field %s.%s is written%s' % ('volatile ' if vol else '', ins[2], ins[3], ' (under a lock)' if it.held > 0 else '')))
        v = st.pop()
        if it.trace and P() is None: it.trace(None)
        if P() is not None:
            key = (ins[2], ins[3]); old = it.statics.get(key)
            if P().parent is not None: it.lost.add(key)
            P().journal.append(lambda: it.statics.__setitem__(key, old))
        it.statics[(ins[2], ins[3])] = v
        if it.onwrite: it.onwrite(None, 'static field')
    elif op == 'GETFIELD':
        o = st.pop()
        if o is None: it.npe('field ' + ins[3])
        if isinstance(o, SNode):
            if it.isnull(o): it.npe('field ' + ins[3])
            st.append(it.node_field(o, ins[2], ins[3], ins[4]))
        elif isinstance(o, Obj):
            if isinstance(o, models.SEnum): o = models.seqs.resolve(it, o)
            if (o.id, ins[3]) in it.lost: raise Unsupported('field %s is written by a lambda or loop body' % ins[3])
            if ins[3] in o.f: st.append(o.f[ins[3]])
            elif hasattr(o, 'getf'): st.append(o.getf(it, ins[2], ins[3], ins[4]))
            else: st.append(it.default(ins[4]))
        elif isinstance(o, Any) and it.isnull(o): it.npe('field ' + ins[3])
        else: raise Unsupported('getfield %s on %r' % (ins[3], o))
    elif op == 'PUTFIELD':
        v = st.pop(); o = st.pop()
        if o is None: it.npe('field ' + ins[3])
        if isinstance(o, SNode):
            P().events.append(('frame', 'field %s of the parsed tree is written' % ins[3]))
            raise Unsupported('write to a symbolic node')
        it.putfield(o, ins[3], v)
    # ---- calls
    elif op in ('INVOKEVIRTUAL', 'INVOKEINTERFACE', 'INVOKESPECIAL', 'INVOKESTATIC'):
        pts, rt = parse_desc(ins[4])
        n = len(pts)
        args = st[len(st)-n:] if n else []
        if n: del st[len(st)-n:]
        for k in range(n):       # a boolean or char passed as int stays what it is
            pass
        if op == 'INVOKESTATIC': r = it.static(ins[2], ins[3], ins[4], args)
        else:
            recv = st.pop()
            if op == 'INVOKESPECIAL' and ins[2] in it.classes:
                if recv is None: it.npe(ins[3])
                c, mm = it.find(ins[2], ins[3], ins[4])
                if mm is None:
                    if ins[3] == '<init>': r = models.super_init(it, recv, ins[2], ins[4], args)
                    else: raise Unsupported('invokespecial %s.%s' % (ins[2], ins[3]))
                else: r = it.invoke(c, mm, [recv] + args)
            elif op == 'INVOKESPECIAL' and ins[3] == '<init>':
                r = models.super_init(it, recv, ins[2], ins[4], args)
                b = getattr(recv, 'become', None)
                if b is not None:
                    for i, x in enumerate(st):
                        if x is recv: st[i] = b
                    for i in (loc if isinstance(loc, dict) else range(len(loc))):
                        if loc[i] is recv: loc[i] = b
            elif op == 'INVOKESPECIAL': r = models.lib_special(it, recv, ins[2], ins[3], ins[4], args)
            else: r = it.virtual(recv, ins[2], ins[3], ins[4], args)
        if rt != 'V':
            if rt == 'J' and not isinstance(r, Lg): raise Unsupported('model of %s.%s gave no long' % (ins[2], ins[3]))
            st.append(r)
    elif op == 'INVOKEDYNAMIC':
        bsm = ins[4]
        pts, rt = parse_desc(ins[3])
        n = len(pts)
        args = st[len(st)-n:] if n else []
        if n: del st[len(st)-n:]
        if bsm[2] == 'java/lang/invoke/LambdaMetafactory':
            h = ins[5][1]
            if h[1] == 5 or h[1] == 9:
                # a bound receiver is null-checked when the function object is made
                if n and (args[0] is None or (isinstance(args[0], Any) and it.isnull(args[0]))): it.npe('method reference')
            st.append(Lam(h[1:], args, ins[5][2][1], rt))
        elif bsm[2] == 'java/lang/invoke/StringConcatFactory':
            st.append(models.concat_recipe(it, ins[5], args, pts))
        else: raise Unsupported('invokedynamic ' + bsm[2])
    # ---- objects
    elif op == 'NEW':
        if ins[2] in it.classes: it.init(ins[2])
        st.append(models.new_object(it, ins[2]))
    elif op == 'CHECKCAST':
        o = st[-1]
        if not (o is None or (isinstance(o, Any) and X.is_cons(o.v, 'Null'))):
            t = ins[2]
            if isinstance(o, Any):
                if t in models.OPAQUE_CASTS: pass
                elif t in SUBCOLL: pass
                elif not it.isnull(o) and not it.instance(o, t): raise JavaExc('java/lang/ClassCastException', jstr('cast to ' + t))
            elif isinstance(o, SNode):
                if not it.isnull(o) and not it.instance(o, t): raise JavaExc('java/lang/ClassCastException', jstr('cast to ' + t))
            elif isinstance(o, (JList, JMap, Lam, PyLam, Stream)): pass
            elif isinstance(o, JArr): pass
            elif isinstance(o, Obj) and o.cls in it.classes or isinstance(o, Obj) and o.cls.startswith('java'):
                if not models.lib_instance(it, o, t): raise JavaExc('java/lang/ClassCastException', jstr('cast to ' + t))
    elif op == 'INSTANCEOF':
        o = st.pop()
        if it.isnull(o): st.append(0)
        else: st.append(1 if it.instance(o, ins[2]) else 0)
    elif op == 'ATHROW':
        o = st.pop()
        if o is None: it.npe('throw')
        e = getattr(o, 'exc', None)
        if e is None: e = JavaExc(o.cls, o.f.get('$msg'), o)
        raise e
    elif op in ('MONITORENTER', 'MONITOREXIT'):
        if op == 'MONITORENTER' and it.onlock: it.onlock()
        st.pop(); it.held += 1 if op == 'MONITORENTER' else -1
    # ---- arrays
    elif op == 'ANEWARRAY' or op == 'NEWARRAY':
        n = conc(st.pop())
        if n is None: raise Unsupported('array of symbolic length')
        el = {4: 'Z', 5: 'C', 6: 'F', 7: 'D', 8: 'B', 9: 'S', 10: 'I', 11: 'J'}[ins[2]] if op == 'NEWARRAY' else ('L%s;' % ins[2] if not ins[2].startswith('[') else ins[2])
        st.append(JArr(Seq(items=[it.default(el)] * n), el))
    elif op == 'ARRAYLENGTH':
        a = st.pop()
        if a is None: it.npe('array length')
        st.append(norm(models.arr(it, a).size()))
    elif op in ('AALOAD', 'IALOAD', 'LALOAD', 'BALOAD', 'CALOAD', 'DALOAD'):
        j = st.pop(); a = st.pop()
        if a is None: it.npe('array load')
        s = models.arr(it, a)
        st.append(models.seq_get(it, s, j, 'java/lang/ArrayIndexOutOfBoundsException'))
    elif op in ('AASTORE', 'IASTORE', 'LASTORE', 'BASTORE', 'CASTORE', 'DASTORE'):
        v = st.pop(); j = conc(st.pop()); a = st.pop()
        if a is None: it.npe('array store')
        if not isinstance(a, JArr) or a.seq.items is None or j is None: raise Unsupported('array store')
        if not 0 <= j < len(a.seq.items): raise JavaExc('java/lang/ArrayIndexOutOfBoundsException', jstr('index'))
        models.seq_write(it, a, lambda items: items.__setitem__(j, v))
    # ---- int and long arithmetic
    elif op in ('IADD', 'ISUB', 'IMUL', 'IDIV', 'IREM', 'IAND', 'IOR', 'IXOR', 'ISHL', 'ISHR', 'IUSHR'):
        b = zint(st.pop()); a = zint(st.pop()); st.append(norm(arith(op[1:], norm(a), norm(b), 32)))
    elif op in ('LADD', 'LSUB', 'LMUL', 'LDIV', 'LREM', 'LAND', 'LOR', 'LXOR', 'LSHL', 'LSHR', 'LUSHR'):
        b = st.pop(); a = st.pop(); st.append(Lg(norm(arith(op[1:], norm(a.t), norm(zint(b)), 64))))
    elif op == 'INEG': st.append(norm(wrap(-zint(st.pop()), 32)))
    elif op == 'LNEG': st.append(Lg(norm(wrap(-st.pop().t, 64))))
    elif op == 'I2L': st.append(Lg(zint(st.pop())))
    elif op == 'L2I': st.append(norm(wrap(st.pop().t, 32)))
    elif op == 'I2D' or op == 'I2F': st.append(models.i2d(it, st.pop(), op == 'I2F'))
    elif op == 'L2D' or op == 'L2F': st.append(models.i2d(it, st.pop(), op == 'L2F'))
    elif op == 'D2I' or op == 'F2I': st.append(models.d2i(it, st.pop(), 32))
    elif op == 'D2L' or op == 'F2L': st.append(Lg(models.d2i(it, st.pop(), 64)))
    elif op == 'F2D' or op == 'D2F': raise Unsupported(op)
    elif op == 'I2B': st.append(norm(wrap(zint(st.pop()), 8)))
    elif op == 'I2S': st.append(norm(wrap(zint(st.pop()), 16)))
    elif op == 'I2C':
        v = st.pop()
        st.append(v % 65536 if isinstance(v, int) else zi(v) % 65536)
    elif op == 'LCMP':
        b = st.pop(); a = st.pop(); st.append(cmp3(a.t, b.t))
    elif op in ('DCMPL', 'DCMPG', 'FCMPL', 'FCMPG'):
        b = st.pop(); a = st.pop(); st.append(models.dcmp(it, a, b, -1 if op.endswith('L') else 1))
    elif op in ('DADD', 'DSUB', 'DMUL', 'DDIV', 'DREM', 'DNEG', 'FADD', 'FSUB', 'FMUL', 'FDIV', 'FNEG'):
        if op.endswith('NEG'): a = st.pop(); st.append(models.darith(it, 'NEG', a, None))
        else:
            b = st.pop(); a = st.pop(); st.append(models.darith(it, op[1:], a, b))
    # ---- control
    elif op in ('IFEQ', 'IFNE', 'IFLT', 'IFGE', 'IFGT', 'IFLE'):
        if br(cond_bool(st.pop(), op)): return ins[2]
    elif op.startswith('IF_ICMP'):
        b = st.pop(); a = st.pop()
        if op in ('IF_ICMPEQ', 'IF_ICMPNE') and isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef): c = a == b if op.endswith('EQ') else a != b
        else:
            a, b = norm(a), norm(b)
            a, b = (zint(a), zint(b))
            c = {'EQ': lambda: a == b, 'NE': lambda: a != b, 'LT': lambda: a < b, 'GE': lambda: a >= b, 'GT': lambda: a > b, 'LE': lambda: a <= b}[op[7:]]()
        if br(c): return ins[2]
    elif op == 'IF_ACMPEQ' or op == 'IF_ACMPNE':
        b = st.pop(); a = st.pop()
        if same_ref(it, a, b) == (op == 'IF_ACMPEQ'): return ins[2]
    elif op == 'IFNULL' or op == 'IFNONNULL':
        if it.isnull(st.pop()) == (op == 'IFNULL'): return ins[2]
    elif op == 'GOTO': return ins[2]
    elif op in ('TABLESWITCH', 'LOOKUPSWITCH'):
        x = norm(st.pop())
        c = conc(x)
        if c is not None: return ins[2].get(str(c), ins[3])
        keys = list(ins[2])
        x = zi(x)
        i = P().choose([x == int(k) for k in keys] + [z3.And([x != int(k) for k in keys])])
        return ins[2][keys[i]] if i < len(keys) else ins[3]
    elif op in ('IRETURN', 'LRETURN', 'ARETURN', 'DRETURN', 'FRETURN', 'RETURN'): return RETURN
    else: raise Unsupported('instruction ' + op)
    return None
