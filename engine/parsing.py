"""Contracts of the parser's own code: the listener that builds the tree, the parsers (plain and caching) and the resolution of names.
The recognizer that ANTLR generates (lexer, parse()) and ANTLR's tree walker are dependencies: their contract is the shape of the parse
trees of the grammar, walked in post-order.  The listener's methods are run on one grammar alternative at a time; the nodes of the
sub-expressions are arbitrary (induction over the tree)."""
import z3
import vals as X
from vals import V, S
import core
from core import P, JavaExc, Unsupported, Infeasible
import jvm
from jvm import Any, Obj, SNode, Seq, JList, JMap, Interp, touch, touch_s, conc, zi, text, jstr, parse_desc
import models, seqs, spec, contracts, verify
from spec import PK, Unspecified, SpecFail
from contracts import const, enum_name

LP = PK + 'parser/antlr/'
GEN, LEX, LIS, PARSERC, CACHED = LP + 'BooleanExpressionParser', LP + 'BooleanExpressionLexer', LP + 'BooleanFilterListener', LP + 'BoolParser', LP + 'CachedBoolParser'
NODEC = PK + 'domain/logical/Node'
NODE = 'L' + NODEC + ';'
ERRN, TERM = 'org/antlr/v4/runtime/tree/ErrorNode', 'org/antlr/v4/runtime/tree/TerminalNode'
PTL = 'Lorg/antlr/v4/runtime/tree/ParseTreeListener;'
OPS = {'>': 'GREATER_THAN', '>=': 'GREATER_THAN_EQUAL', '<': 'LESS_THAN', '<=': 'LESS_THAN_EQUAL', '=': 'EQUALS', '!=': 'NOT_EQUAL'}
CMPTOK = {'>': 'GT', '>=': 'GE', '<': 'LT', '<=': 'LE', '=': 'EQ', '!=': 'NE'}
AOP = {'+': 'ADD', '-': 'SUBTRACT', '*': 'MULTIPLY', '/': 'DIVIDE', '%': 'MODULUS', '^': 'EXPONENT'}
FUNS = ('MIN', 'MAX', 'AVG', 'SUM', 'MEAN', 'MODE', 'MEDIAN', 'INT', 'LEN', 'DAYS_ELAPSED')
LITS = ('INTEGER', 'DECIMAL', 'APP_VERSION', 'TRUE', 'FALSE', 'WORD', 'FIELD', 'DATE', 'DATETIME')

class Stub:
    """one parsing call: interpreter with stubs for ANTLR and Caffeine"""
    def __init__(self, dump, job, it=None):
        self.used, self.relied, self.covered, self.installed = set(), set(), set(), set()
        own = it is None
        if own: it = Interp(dump); it.bound = job.get('bound')
        self.it = it; self.job = job
        self.toks = {f[0]: f[3][1] for f in it.classes.get(LEX, {'fields': []})['fields'] if f[2] & 8 and f[1] == 'I' and f[3]}
        for c in list(it.classes):
            if c.startswith(GEN + '$'): models.EXTRA_LIB[c] = self.ctx_call
        models.EXTRA_LIB['?token'] = self.tok_call
        models.EXTRA_LIB[TERM] = models.EXTRA_LIB[ERRN] = self.term_call
        models.EXTRA_LIB['org/antlr/v4/runtime/tree/ParseTreeProperty'] = self.prop_call
        models.EXTRA_LIB['org/antlr/v4/runtime/tree/ParseTreeWalker'] = self.walker_call
        models.EXTRA_LIB[GEN] = models.EXTRA_LIB[LEX] = self.recog_call
        models.EXTRA_LIB['?charstream'] = models.EXTRA_LIB['org/antlr/v4/runtime/CommonTokenStream'] = lambda *a: NotImplemented
        models.EXTRA_LIB['?caffeine'] = self.caffeine_call; models.EXTRA_LIB['?cache'] = self.cache_call
        def from_string(it, args, desc):
            if it.isnull(args[0]): it.npe('CharStreams.fromString')
            o = Obj('?charstream'); o.f['s'] = args[0]; return o
        models.EXTRA_STATIC[('org/antlr/v4/runtime/CharStreams', 'fromString')] = from_string
        models.EXTRA_STATIC[('com/github/benmanes/caffeine/cache/Caffeine', 'newBuilder')] = lambda it, args, desc: Obj('?caffeine')
        def store(it, o, pts, args): o.f['arg'] = args[0] if args else None
        models.EXTRA_INIT['org/antlr/v4/runtime/CommonTokenStream'] = store
        for c in (LEX, GEN):      # the generated recognizer: its static initialiser (the serialized automaton) is not run
            it.inited.add(c)
            for f in it.classes.get(c, {'fields': []})['fields']:
                if f[2] & 8: it.statics[(c, f[0])] = it.const(f[3]) if f[3] else it.default(f[1])
            for m in it.classes.get(c, {'methods': []})['methods']:
                if m['name'] == '<init>': it.contracts[(c, '<init>', m['desc'])] = lambda it, a: a[0].f.__setitem__('arg', a[1])
        it.contracts[(GEN, 'parse', '()L%s$ParseContext;' % GEN)] = lambda it, a: self.recognize(a[0])
        self.seeds = {}
        self.dflt = None
        self.cacheops = []
        saved, core.Path.cur = core.Path.cur, None
        try:      # the registries are filled by any parser's constructor
            if own and PK + 'operator/OperatorFactory' in it.classes: models.construct(it, PARSERC, '()V', [])
        except Unsupported: pass
        finally: core.Path.cur = saved
    # ------------------------------------------------ ANTLR objects
    def need(self, c):
        if c not in self.it.classes: raise Unsupported('no class ' + c)
        return c
    def tok(self, ty, txt):
        if isinstance(ty, str):
            if ty not in self.toks: raise Unsupported('no token ' + ty)
            ty = self.toks[ty]
        o = Obj('?token', type=ty, text=jstr(txt) if isinstance(txt, str) else txt); o.owner = None; return o
    def terminal(self, tok):
        o = Obj(TERM, symbol=tok); o.owner = None; return o
    def ctx(self, name, children, txt, **f):
        o = Obj(self.need(GEN + '$%sContext' % name)); o.owner = None
        o.f.update(f); o.f['children'] = children if isinstance(children, JList) else JList(Seq(items=list(children)))
        o.f['children'].owner = None
        o.f['$text'] = jstr(txt) if isinstance(txt, str) else txt
        o.f['$kids'] = None if isinstance(children, JList) else list(children)
        if o.f['$kids']:
            s = self.start_of(o.f['$kids'][0])
            if 'start' not in o.f: o.f['start'] = s
            o.f.setdefault('stop', s)
        o.f.setdefault('exception', None)
        o.getf = self.nofield
        return o
    def nofield(self, it, owner, name, desc): raise Unsupported('field %s of a %s' % (name, owner.split('$')[-1].split('/')[-1]))
    def start_of(self, k): return k.f['symbol'] if k.cls in (TERM, ERRN) else k.f.get('start')
    def newtext(self, name, nonblank=True):
        s = z3.Const(name, S); touch_s(s)
        if nonblank: P().assume(z3.Not(X.isblank(s)), X.slen(s) >= 1)
        return Any(V.Str(s))
    def opaque(self, name, nid=None, txt=None):
        """a sub-expression about which nothing is known but the node that the listener gave it"""
        t = self.tok(z3.Const(name + '_type', X.I), txt or self.newtext(name + '_first'))
        o = self.ctx('Expression', [], self.newtext(name + '_text', nonblank=False), start=t, stop=t)
        o.opaque = True
        self.seeds[o.id] = nid if nid is not None else self.nid(name)
        return o
    NIDS = {}
    def nid(self, name):
        k = Stub.NIDS.setdefault(name, 100 + len(Stub.NIDS))
        return SNode(z3.IntVal(k), NODEC)
    def term_call(self, it, recv, owner, name, desc, args):
        if name in ('getSymbol', 'getPayload'): return recv.f['symbol']
        if name == 'getText': return recv.f['symbol'].f['text']
        return NotImplemented
    def tok_call(self, it, recv, owner, name, desc, args):
        if name == 'getType': return recv.f['type']
        if name == 'getText': return recv.f['text']
        if name in ('getTokenIndex', 'getLine', 'getCharPositionInLine', 'getStartIndex', 'getStopIndex', 'getChannel'): return P().fresh(name, X.I)
        return NotImplemented
    def ctx_call(self, it, o, owner, name, desc, args):
        if name == 'getText': return o.f['$text']
        if name == 'getStart': return o.f['start']
        if name == 'getStop': return o.f['stop']
        if name == 'getParent': return o.f.get('parent')
        q = o.f['children'].seq
        if name == 'getChildCount': return q.size() if q.items is None else len(q.items)
        if name == 'getChild' and parse_desc(desc)[0] == ['I']:
            k = conc(args[0])
            if k is None or q.items is None: raise Unsupported('getChild')
            return q.items[k] if 0 <= k < len(q.items) else None
        def of(c):
            if q.items is None:
                if c == GEN + '$ExpressionContext': return q
                raise Unsupported('children of a symbolic list')
            return Seq(items=[k for k in q.items if k.cls not in (TERM, ERRN) and it.subclass(k.cls, c)])
        if name in ('getRuleContexts', 'getRuleContext') and parse_desc(desc)[0][:1] == ['Ljava/lang/Class;']:
            r = of(args[0].name)
            if name == 'getRuleContexts': return JList(r, mutable=True)
            k = conc(args[1])
            if k is None: raise Unsupported('getRuleContext')
            if r.items is not None: return r.items[k] if k < len(r.items) else None
            return r.at(z3.IntVal(k)) if P().branch(r.n > k) else None
        if name in ('getToken', 'getTokens') and q.items is not None:
            r = [k for k in q.items if k.cls in (TERM, ERRN) and conc(k.f['symbol'].f['type']) == conc(args[0])]
            if name == 'getTokens': return JList(Seq(items=r))
            k = conc(args[1])
            return r[k] if k < len(r) else None
        return NotImplemented
    def prop_call(self, it, o, owner, name, desc, args):
        d = o.f.get('$d', [])
        def find(k):
            for e in d:
                if e[0] is k: return e[1]
            if getattr(o, 'seeded', False) and k is not None: return self.seed(k)
            return None
        if name == 'get': return find(args[0])
        if name == 'put': it.putfield(o, '$d', [[args[0], args[1]]] + [e for e in d if e[0] is not args[0]]); return None
        if name == 'removeFrom':
            r = find(args[0])
            if getattr(o, 'seeded', False): it.putfield(o, '$d', [[args[0], None]] + [e for e in d if e[0] is not args[0]])
            else: it.putfield(o, '$d', [e for e in d if e[0] is not args[0]])
            return r
        return NotImplemented
    def seed(self, k):
        if k.id in self.seeds: return self.seeds[k.id]
        return getattr(k, 'seednode', None)
    def recog_call(self, it, o, owner, name, desc, args):
        if name in ('removeErrorListeners', 'addErrorListener', 'removeErrorListener', 'addParseListener', 'setTrace', 'setProfile', 'setBuildParseTree') and name not in ('addParseListener',): return None
        raise Unsupported('%s of the generated recognizer' % name)
    # ------------------------------------------------ the walk
    def newlistener(self, dflt):
        it = self.it
        if LIS not in it.classes: raise Unsupported('no listener class')
        return models.construct(it, LIS, '(Ljava/lang/String;)V', [dflt])
    def seedable(self, lis):
        ok = False
        for v in lis.f.values():
            if isinstance(v, Obj) and v.cls == 'org/antlr/v4/runtime/tree/ParseTreeProperty': v.seeded = True; ok = True
            elif isinstance(v, JMap) and v.cls in ('java/util/HashMap', 'java/util/IdentityHashMap'): 
                v.d.extend([[o, self.seeds[o.id]] for o in self.allopaque if o.id in self.seeds]); ok = True
        return ok
    allopaque = ()
    def rule(self, c, name, lis): return self.it.virtual(c, c.cls, name, '(%s)V' % PTL, [lis])
    def event(self, lis, name, arg, ty): return self.it.virtual(lis, LP + 'BooleanExpressionListener', name, '(L%s;)V' % ty, [arg])
    PRC = 'org/antlr/v4/runtime/ParserRuleContext'
    def walk(self, lis, c):
        if getattr(c, 'opaque', False): return
        if c.cls == ERRN: self.event(lis, 'visitErrorNode', c, ERRN); return
        if c.cls == TERM: self.event(lis, 'visitTerminal', c, TERM); return
        self.event(lis, 'enterEveryRule', c, self.PRC); self.rule(c, 'enterRule', lis)
        for k in c.f['$kids'] or []: self.walk(lis, k)
        self.rule(c, 'exitRule', lis); self.event(lis, 'exitEveryRule', c, self.PRC)
    def parsed(self, e, extra=(), exc=None):
        """the context of a whole text"""
        if exc is None and not extra: kids = [e, self.terminal(self.tok(-1, '<EOF>'))]
        else: kids = [e] + list(extra) + [self.terminal(self.tok(-1, '<EOF>'))]
        return self.ctx('Parse', kids, e.f['$text'] if not extra else self.newtext('whole_text'), exception=exc)
    def result(self, lis, e):
        """the node that the listener has for an expression, read the way a parser reads it"""
        self.walkroot(lis, self.parsed(e))
        return self.it.virtual(lis, LIS, 'getNode', '()' + NODE, [])
    def walkroot(self, lis, root, kids=False):
        self.event(lis, 'enterEveryRule', root, self.PRC); self.rule(root, 'enterRule', lis)
        for k in root.f['$kids']:
            if kids or k.cls in (TERM, ERRN): self.walk(lis, k)
        self.rule(root, 'exitRule', lis); self.event(lis, 'exitEveryRule', root, self.PRC)
    def walker_call(self, it, o, owner, name, desc, args):
        if name != 'walk': return NotImplemented
        lis, c = args
        if lis is None or c is None: it.npe('walk')
        self.walkroot(lis, c, kids=True)
        return None
    # ------------------------------------------------ Caffeine
    def caffeine_call(self, it, o, owner, name, desc, args):
        if name in ('maximumSize', 'initialCapacity', 'maximumWeight'):
            n = models.zint(args[0])
            if it and models.br(zi(n) < 0): models.throw('java/lang/IllegalArgumentException', 'negative size')
            return o
        if name in ('recordStats', 'softValues', 'expireAfterWrite', 'expireAfterAccess', 'executor', 'scheduler'): return o
        if name == 'build':
            c = Obj('?cache'); c.f['d'] = []; c.f['loader'] = args[0] if args else None; return c
        return NotImplemented
    def cache_call(self, it, c, owner, name, desc, args):
        def setd(d):
            old = c.f['d']; c.f['d'] = d
            if P() is not None: P().journal.append(lambda: c.f.__setitem__('d', old))
        def find(k):
            if it.isnull(k): it.npe('cache key')
            for e in c.f['d']:
                if models.br(models.zbool(models.jequals(it, e[0], k))):
                    return e if P().branch(P().fresh('cached', X.B)) else None     # it may have been evicted
            return None
        self.cacheops.append((name, args[0] if args else None))
        if name == 'get':
            e = find(args[0])
            if e: return e[1]
            f = args[1] if len(args) > 1 else c.f['loader']
            v = it.apply(f, args[0])
            if not it.isnull(v): setd([[args[0], v]] + c.f['d'])
            return v
        if name == 'getIfPresent':
            e = find(args[0]); return e[1] if e else None
        if name == 'put':
            if it.isnull(args[0]) or it.isnull(args[1]): it.npe('cache')
            find(args[0]); setd([[args[0], args[1]]] + c.f['d']); return None
        if name == 'invalidate': setd([e for e in c.f['d'] if not models.br(models.zbool(models.jequals(it, e[0], args[0])))]); return None
        if name in ('invalidateAll',): setd([]); return None
        if name == 'cleanUp': return None
        if name == 'estimatedSize': return jvm.Lg(P().fresh('size', X.I))
        return NotImplemented
    # ------------------------------------------------ whole texts: what the generated recognizer gives on a text
    TREE = z3.Function('treeof', S, X.I); LEAF = z3.Function('leafof', S, S)
    SHAPES = ('a word', 'nothing', 'a word and text that is left over', 'a word with an error')
    def shape(self, s):
        t = Stub.TREE(s)
        if self.job.get('shapes') == 3: P().assume(z3.Or(t == 0, t == 1, t == 3))
        return P().choose([t == 0, t == 1, t == 2, t == 3] + [z3.Or(t < 0, t > 3)])
    def recognize(self, parser):
        st = parser.f.get('arg')
        src = st.f['arg'].f['arg'].f['s'] if isinstance(st, Obj) and 'arg' in st.f and isinstance(st.f['arg'], Obj) and isinstance(st.f['arg'].f.get('arg'), Obj) else None
        if src is None: raise Unsupported('the characters that are parsed')
        s = models.sterm(src)
        k = self.shape(s)
        if k == 4: raise contracts.opaque_failure('the recognizer fails')
        if k == 1:
            t = self.tok(-1, '<EOF>')
            e = self.ctx('TypesExpression', [self.ctx('Types', [], '', start=t, stop=t)], '', start=t, stop=t)
            return self.parsed(e)
        w = Stub.LEAF(s); touch_s(w); P().assume(z3.Not(X.isblank(w)), X.slen(w) >= 1)
        e = self.leaf('FIELD', Any(V.Str(w)))
        err = Obj(ERRN, symbol=self.tok('RPAREN', ')')); err.owner = None
        exc = Obj('org/antlr/v4/runtime/RecognitionException'); exc.owner = None
        return self.parsed(e, extra=[err] if k == 2 else (), exc=exc if k == 3 else None)
    def expected(self, s, dflt):
        """what a text is to give: the structure, or failure"""
        k = self.shape(s)
        if k in (2, 3, 4): spec.fail('does not parse')
        if k == 1: return ('node', 'Field', {'field': ('val', dflt)})
        return ('node', 'Field', {'field': ('val', V.Str(Stub.LEAF(s)))})
    # ------------------------------------------------ leaves
    def leaf(self, ty, txt):
        t = self.tok(ty, txt); n = self.terminal(t)
        if ty in ('TRUE', 'FALSE'): n = self.ctx('Bool', [n], txt)
        return self.ctx('TypesExpression', [self.ctx('Types', [n], txt)], txt)
    def literal(self, ty, name='lit'):
        """(text, expected value or None for failure or 'field') of a literal token"""
        if ty in ('TRUE', 'FALSE'): return None
        s = z3.Const(name, S); touch_s(s); p = P()
        p.assume(z3.Not(X.isblank(s)), X.slen(s) >= 1)
        first, last = z3.Function('charat', S, X.I, X.I)(s, z3.IntVal(0)), z3.Function('charat', S, X.I, X.I)(s, X.slen(s) - 1)
        sw, ew = models.ubin('startsWith', X.B), models.ubin('endsWith', X.B)
        q = {x: X.sconst(x) for x in ("'", '"')}
        if ty != 'WORD':
            p.assume(models.alldigits(s) == (ty == 'INTEGER'), *[z3.Not(f(s, q[x])) for f in (sw, ew) for x in q], *[c != ord(x) for c in (first, last) for x in q])
        if ty == 'INTEGER': p.assume(X.isint(s), X.isdec(s), X.intval(s) >= 0, z3.Not(X.isnullword(s)), models.alldigits(s), first >= 48, first <= 57)
        elif ty == 'DECIMAL': p.assume(X.isdec(s), z3.Not(X.isint(s)), X.decval(s) >= 0, X.decscale(s) >= 1)
        elif ty == 'APP_VERSION': p.assume(z3.Not(X.isdec(s)), z3.Not(X.isint(s)), *X.notext(s))
        elif ty == 'DATE': p.assume(z3.Not(X.isdec(s)), z3.Not(X.isint(s)), z3.Not(X.isdt(s)), X.slen(s) == 10, z3.Not(X.isnullword(s)), z3.Not(X.istrue(s)), z3.Not(X.isfalse(s)))
        elif ty == 'DATETIME': p.assume(z3.Not(X.isdec(s)), z3.Not(X.isint(s)), z3.Not(X.isdate(s)), X.slen(s) == 19, z3.Not(X.isnullword(s)), z3.Not(X.istrue(s)), z3.Not(X.isfalse(s)))
        return s
    def word_facts(self, s, qc, body):
        p = P(); oq = '"' if qc == "'" else "'"
        sw, ew = models.ubin('startsWith', X.B), models.ubin('endsWith', X.B)
        ch = z3.Function('charat', S, X.I, X.I)
        p.assume(sw(s, X.sconst(qc)), ew(s, X.sconst(qc)), z3.Not(sw(s, X.sconst(oq))), z3.Not(ew(s, X.sconst(oq))), ch(s, z3.IntVal(0)) == ord(qc), ch(s, X.slen(s) - 1) == ord(qc), X.slen(s) >= 2,
                 z3.Function('substr', S, X.I, X.I, S)(s, z3.IntVal(1), X.slen(s) - 1) == body, X.slen(body) == X.slen(s) - 2, z3.Not(X.isdec(s)), z3.Not(X.isint(s)), *X.notext(s))
        touch_s(body)
    # ------------------------------------------------ a small sub-expression with its own leaves (where the representation is unknown)
    def small(self, name):
        k = P().choose([z3.Const(name + '_kind', X.I) == i for i in range(4)] + [z3.And([z3.Const(name + '_kind', X.I) != i for i in range(4)])])
        w = lambda n: self.newtext(n)
        fld = lambda a: ('node', 'Field', {'field': ('val', a.v)})
        def word(n):
            a = w(n); return self.leaf('FIELD', a), fld(a)
        if k == 0: return word(name + '_w')
        if k == 1:
            s = self.literal('INTEGER', name + '_i'); P().assume(X.in32(X.intval(s)))
            return self.leaf('INTEGER', Any(V.Str(s))), ('node', 'Unary', {'value': ('val', V.Int(X.intval(s))), 'dataType': ('enum', 'INTEGER')})
        if k == 2:
            t = self.tok(-1, '<EOF>')
            return self.ctx('TypesExpression', [self.ctx('Types', [], '', start=t, stop=t)], '', start=t, stop=t), ('node', 'Field', {'field': ('val', self.dflt.v)})
        if k == 3:
            a, ea = word(name + '_a'); b, eb = word(name + '_b')
            op = self.ctx('Comparator', [self.terminal(self.tok('GT', '>'))], '>')
            return self.ctx('ComparatorExpression', [a, op, b], self.newtext(name + '_t'), left=a, op=op, right=b), ('node', 'Comparison', {'left': ea, 'right': eb, 'operator': ('enum', 'GREATER_THAN')})
        a, ea = word(name + '_a')
        m = self.tok('SUBTRACT', '-')
        return self.ctx('UnaryArithmeticExpression', [self.terminal(m), a], self.newtext(name + '_t'), op=m, exp=a), ('node', 'Arithmetic', {'left': ea, 'right': None, 'operator': ('enum', 'UNARY')})
    def operand(self, name):
        if self.job.get('tree') == 'leaf': return self.small(name)
        o = self.opaque(name); self.allopaque = tuple(self.allopaque) + (o,)
        return o, ('same', self.seeds[o.id])
    def wordlist(self, name='list'):
        """the list of operands of IN, CONTAINS_x and functions; any number of elements"""
        if self.job.get('tree') == 'leaf':
            n = P().choose([z3.Const(name + '_n', X.I) == i for i in (1, 2)] + [z3.And([z3.Const(name + '_n', X.I) != i for i in (1, 2)])]) + 1
            n = min(n, 2)
            els = [self.small('%s%d' % (name, i)) if i < 1 else (lambda a: (self.leaf('FIELD', a), ('node', 'Field', {'field': ('val', a.v)})))(self.newtext('%s%d' % (name, i))) for i in range(n)]
            kids = [self.terminal(self.tok('LPAREN', '('))]
            for i, (c, _) in enumerate(els):
                if i: kids.append(self.terminal(self.tok(1, ',')))
                kids.append(c)
            kids.append(self.terminal(self.tok('RPAREN', ')')))
            return self.ctx('Wordlist', kids, self.newtext(name + '_text'), first=els[0][0], rest=els[-1][0] if n > 1 else None), ('list', [e for _, e in els])
        n = z3.Const(name + '_n', X.I); P().assume(n >= 1)
        nodes = z3.Function(name + '_node', X.I, X.I)
        def at(j):
            j = zi(j)
            t = self.tok(z3.Function(name + '_type', X.I, X.I)(j), Any(V.Str(z3.Function(name + '_first', X.I, S)(j))))
            o = Obj(self.need(GEN + '$ExpressionContext')); o.owner = None; o.opaque = True
            o.f.update({'start': t, 'stop': t, 'exception': None, '$text': Any(V.Str(z3.Function(name + '_text', X.I, S)(j))), 'children': JList(Seq(items=[])), '$kids': None})
            o.seednode = SNode(nodes(j), NODEC); return o
        q = it_symseq(self.it, n, at)
        l = JList(q, mutable=False, cls='java/util/List'); l.owner = None
        t = self.tok('LPAREN', '(')
        w = self.ctx('Wordlist', l, self.newtext(name + '_text'), start=t, stop=t, first=at(z3.IntVal(0)), rest=None if P().branch(n == 1) else at(n - 1))
        return w, ('nodes', n, nodes)
    # ------------------------------------------------ grammar alternatives
    def build(self):
        """(context, expected structure) of the alternative of the job; SpecFail for a failure"""
        j = self.job; w, o = j['what'], j.get('op')
        T = lambda ty, t: self.terminal(self.tok(ty, t))
        whole = self.newtext('expr_text')
        if w == 'parent':
            a, ea = self.operand('inner'); return self.ctx('ParentExpression', [T('LPAREN', '('), a, T('RPAREN', ')')], whole), ea
        if w == 'not':
            a, ea = self.operand('inner')
            return self.ctx('NotExpression', [T('NOT', o), a], whole), ('node', 'Boolean', {'left': ('notarg', ea), 'right': None, 'operator': ('enum', 'NOT')})
        if w == 'unary':
            a, ea = self.operand('inner'); m = T('SUBTRACT', '-')
            return self.ctx('UnaryArithmeticExpression', [m, a], whole, op=m.f['symbol'], exp=a), ('node', 'Arithmetic', {'left': ea, 'right': None, 'operator': ('enum', 'UNARY')})
        if w in ('binary', 'comparator', 'arithmetic'):
            a, ea = self.operand('left'); b, eb = self.operand('right')
            if w == 'binary':
                ty = 'AND' if o in ('AND', 'and', '&&') else 'OR'
                oc = self.ctx('Binary', [T(ty, o)], o)
                return self.ctx('BinaryExpression', [a, oc, b], whole, left=a, op=oc, right=b), ('node', 'Boolean', {'left': ea, 'right': eb, 'operator': ('enum', ty)})
            if w == 'comparator':
                oc = self.ctx('Comparator', [T(CMPTOK[o], o)], o)
                return self.ctx('ComparatorExpression', [a, oc, b], whole, left=a, op=oc, right=b), ('node', 'Comparison', {'left': ea, 'right': eb, 'operator': ('enum', OPS[o])})
            m = T(AOP[o], o)
            return self.ctx('ArithmeticExpression', [a, m, b], whole, left=a, op=m.f['symbol'], right=b), ('node', 'Arithmetic', {'left': ea, 'right': eb, 'operator': ('enum', AOP[o])})
        if w == 'function':
            oc = self.ctx('ArithmeticFunction', [T(o.upper(), o)], o); l, el = self.wordlist()
            return self.ctx('ArithmeticFunctionExpression', [oc, l], whole, left=oc, data=l), ('node', 'Function', {'functionType': ('enum', o.upper()), 'items': el})
        if w in ('in', 'array', 'to'):
            f = self.newtext('field_name', nonblank=False); ft = self.tok('FIELD', f); fn = self.terminal(ft)
            exp_field = ('field', f.v)
            if w == 'in':
                l, el = self.wordlist()
                inn = ('node', 'In', {'field': exp_field, 'items': el})
                if o == 'IN': return self.ctx('InExpression', [fn, T('IN', 'in'), l], whole, field=ft, data=l, **{'not': None}), inn
                nt = T('NOT', 'not')
                return self.ctx('InExpression', [fn, nt, T('IN', 'IN'), l], whole, field=ft, data=l, **{'not': nt.f['symbol']}), ('node', 'Boolean', {'left': inn, 'right': None, 'operator': ('enum', 'NOT')})
            if w == 'array':
                l, el = self.wordlist(); oc = self.ctx('ArrayOperators', [T(o.upper(), o)], o)
                return self.ctx('ArrayExpression', [fn, oc, l], whole, field=ft, op=oc, data=l), ('node', 'Array', {'field': exp_field, 'operator': ('enum', o.upper()), 'items': el})
            ends = []
            for side, ty in zip(('lower', 'upper'), o.split('-')):
                s = self.literal(ty, side)
                ends.append((self.ctx('NumericTypes', [T(ty, Any(V.Str(s)))], Any(V.Str(s))), self.litvalue(ty, s)))
            (lo, vlo), (hi, vhi) = ends
            c = self.ctx('ToExpression', [fn, lo, T('TO', 'TO'), hi], whole, field=ft, lower=lo, upper=hi)
            return c, ('node', 'Range', {'field': exp_field, 'fromValue': ('lit', vlo, 'v'), 'toValue': ('lit', vhi, 'v'), 'fromDataType': ('lit', vlo, 't'), 'toDataType': ('lit', vhi, 't')})
        if w == 'literal':
            if o == 'empty':
                # the token that comes next is not part of it
                t = self.tok(z3.Const('next_type', X.I), self.newtext('next_text', nonblank=False))
                return self.ctx('TypesExpression', [self.ctx('Types', [], '', start=t, stop=t)], '', start=t, stop=t), ('node', 'Field', {'field': ('val', self.dflt.v)})
            if o in ('TRUE', 'FALSE', 'true', 'false'): 
                return self.leaf(o.upper(), o), ('node', 'Unary', {'value': ('val', V.Bool(z3.BoolVal(o.upper() == 'TRUE'))), 'dataType': ('enum', 'BOOLEAN')})
            if o[0] in '\'"' and o.startswith(('\'', '"')):
                s = self.literal('WORD'); body = z3.Const('body', S); self.word_facts(s, o[0], body)
                return self.leaf('WORD', Any(V.Str(s))), ('node', 'Unary', {'value': ('val', V.Str(body)), 'dataType': ('enum', 'STRING')})
            s = self.literal(o)
            c = self.leaf(o, Any(V.Str(s)))
            if o == 'FIELD': return c, ('node', 'Field', {'field': ('val', V.Str(s))})
            v = self.litvalue(o, s)
            return c, ('node', 'Unary', {'value': ('lit', v, 'v'), 'dataType': ('lit', v, 't')})
        raise KeyError(w)
    def litvalue(self, ty, s):
        """-> (condition of being valid, value term as function, data type) decided when the specification runs"""
        if ty == 'INTEGER':
            def f():
                i = X.intval(s)
                if P().branch(X.in32(i)): return V.Int(i), 'INTEGER'
                if P().branch(X.in64(i)): return V.Long(i), 'LONG'
                spec.fail('too large a number')
            return f
        if ty == 'DECIMAL': return lambda: (V.Dec(X.decval(s), X.decscale(s)), 'DECIMAL')
        if ty == 'APP_VERSION': return lambda: (V.Ver(s), 'VERSION')
        if ty in ('DATE', 'DATETIME'):
            def f():
                ok, v = (X.isdate(s), V.Date(X.dateval(s))) if ty == 'DATE' else (X.isdt(s), V.DT(X.dtval(s)))
                if not P().branch(ok): spec.fail('no such date')
                return v, ty
            return f
        raise KeyError(ty)
    def resolve(self, e):
        """the expected structure with everything decided"""
        if e is None or e[0] in ('same', 'enum', 'val', 'nodes'): return e
        if e[0] == 'node': return ('node', e[1], {k: self.resolve(x) for k, x in e[2].items()})
        if e[0] == 'list': return ('list', [self.resolve(x) for x in e[1]])
        if e[0] == 'notarg': return ('notarg', self.resolve(e[1]))
        if e[0] == 'lit':
            v, t = e[1]()
            return ('val', v) if e[2] == 'v' else ('enum', t)
        if e[0] == 'field':
            s = X.sel('Str', e[1])
            if not P().branch(X.isblank(s)): return ('val', e[1])
            d = self.dflt.v; touch(d)
            if P().branch(X.isk('Null', d)): spec.fail('no field')
            touch_s(X.sel('Str', d))
            if P().branch(X.isblank(X.sel('Str', d))): spec.fail('no field')
            return ('val', d)
        raise KeyError(e[0])

def it_symseq(it, n, at):
    """a sequence of any length (bounded mode does not apply: its elements are opaque)"""
    return Seq(n=n, fn=at, tag=None)

def conj(fs):
    out = []
    for f in fs:
        if f is True: continue
        if f is False: return False
        out.append(f)
    return z3.And(out) if out else True
def match(it, a, e):
    """whether the object a has the expected structure: formula or bool"""
    if e is None: return it.isnull(a)
    if a is None and e[0] != 'val': return False
    if e[0] == 'same':
        if isinstance(a, SNode): return a.nid == e[1].nid
        return False
    if e[0] == 'enum':
        return isinstance(a, Obj) and not isinstance(a, seqs.SEnum) and '$name' in a.f and text(a.f['$name']) == e[1] or (isinstance(a, seqs.SEnum) and a.t == [enum_name(x) for x in it.enum_consts(a.cls)].index(e[1]))
    if e[0] == 'val': return a.v == e[1] if isinstance(a, Any) else a is None and X.isk('Null', e[1])
    if e[0] == 'notarg':
        # a field as the operand of NOT may stay a field or become the name that is looked up
        if e[1][0] == 'same' and isinstance(a, SNode): return match(it, a, e[1])
        if e[1][0] == 'node' and e[1][1] != 'Field': return match(it, a, e[1])
        if isinstance(a, Obj) and a.cls == PK + spec.NODES['Field']: return match(it, a, e[1])
        if isinstance(a, Obj) and a.cls == PK + spec.NODES['Unary']:
            name = e[1][2]['field'][1] if e[1][0] == 'node' else spec.FLDF(e[1][1].nid)
            isf = True if e[1][0] == 'node' else it.ncls(e[1][1]) == it.clsidx(PK + spec.NODES['Field'])
            return conj([isf, match(it, a, ('node', 'Unary', {'value': ('val', name), 'dataType': ('enum', 'STRING')}))])
        return False
    if e[0] == 'node':
        if not isinstance(a, Obj) or a.cls != PK + spec.NODES[e[1]]: return False
        return conj([match(it, a.f.get(k), x) for k, x in e[2].items()])
    if e[0] in ('list', 'nodes'):
        if not isinstance(a, JList): return False
        q = a.seq
        if e[0] == 'list': return q.items is not None and len(q.items) == len(e[1]) and conj([match(it, x, y) for x, y in zip(q.items, e[1])])
        n, nodes = e[1], e[2]
        if q.items is not None: return conj([n == len(q.items)] + [match(it, x, ('same', SNode(nodes(z3.IntVal(i)), NODEC))) for i, x in enumerate(q.items)])
        j = P().fresh('position', X.I)
        P().assume(j >= 0, j < n); P().index(j)
        return conj([zi(q.n) == n, match(it, q.at(j), ('same', SNode(nodes(j), NODEC)))])
    raise KeyError(e[0])

# ---------------------------------------------------------------- jobs
def anytext(name, nullable=True):
    v = z3.Const(name, V); touch(v)
    P().assume(X.isany(['Null', 'Str'] if nullable else ['Str'], v))
    return Any(v)
def listen_job(dump, job):
    """one grammar alternative: the listener's node for it, from the nodes of its operands"""
    c = Stub(dump, job); it = c.it; st = {}
    def code():
        c.seeds = {}; c.allopaque = ()
        c.dflt = anytext('dflt')
        lis = c.newlistener(c.dflt)
        ctx, exp = c.build()
        st['exp'] = exp
        other = None
        if job.get('tree') != 'leaf':
            other = c.opaque('unrelated'); c.allopaque = tuple(c.allopaque) + (other,)
            if not c.seedable(lis): raise Unsupported('how the listener keeps the nodes')
        c.walk(lis, ctx)
        r = c.result(lis, ctx)
        o2 = c.result(lis, other) if other is not None else None
        return ('nodes', r, o2, other)
    def sp(): return ('exp', c.resolve(st['exp']))
    def cmp(co, so):
        if so[0] == 'fail' or co[0] == 'fail': return so[0] == co[0]
        _, r, o2, other = co[1]
        return conj([match(it, r, so[1][1])] + ([match(it, o2, ('same', c.seeds[other.id]))] if other is not None else []))
    return c, None, code, sp, cmp
def root_job(dump, job):
    """leaving the whole text: its node is that of its expression, and an error in it is a failure"""
    c = Stub(dump, job); it = c.it; st = {}
    def code():
        c.seeds = {}; c.allopaque = (); c.dflt = anytext('dflt')
        lis = c.newlistener(c.dflt)
        e, exp = c.operand('inner'); st['exp'] = exp
        if job.get('tree') != 'leaf' and not c.seedable(lis): raise Unsupported('how the listener keeps the nodes')
        k = P().choose([z3.Const('where', X.I) == i for i in range(5)] + [z3.And([z3.Const('where', X.I) != i for i in range(5)])])
        err = Obj(ERRN, symbol=c.tok(z3.Const('err_type', X.I), c.newtext('err_text'))); err.owner = None
        eof = c.terminal(c.tok(-1, '<EOF>'))
        exc = Obj('org/antlr/v4/runtime/InputMismatchException'); exc.owner = None
        kids = {0: [e, eof], 1: [err, e, eof], 2: [e, err, eof], 3: [e, err, err, eof], 4: [e], 5: [e, eof]}[k]
        root = c.ctx('Parse', kids, c.newtext('whole_text'), exception=exc if k in (4, 5) else None)
        st['bad'] = k != 0
        if job.get('tree') == 'leaf': c.walk(lis, e)
        c.walkroot(lis, root)
        return it.virtual(lis, LIS, 'getNode', '()' + NODE, [])
    def sp():
        if st['bad']: spec.fail('does not parse')
        return ('exp', c.resolve(st['exp']))
    def cmp(co, so):
        if so[0] == 'fail' or co[0] == 'fail': return so[0] == co[0]
        return match(it, co[1], so[1][1])
    return c, None, code, sp, cmp
TRYD = 'Lio/vavr/control/Try;'
def request(c, parser, e, d, one):
    it = c.it
    try: t = it.virtual(parser, parser.cls, 'parseExpression', '(Ljava/lang/String;)' + TRYD, [e]) if one else it.virtual(parser, parser.cls, 'parseExpression', '(Ljava/lang/String;Ljava/lang/String;)' + TRYD, [e, d])
    except JavaExc as x: return verify.THREW
    return contracts.try_outcome(t)
def snapshot(x, seen=None):
    """what an object holds, but for the entries of a cache"""
    seen = {} if seen is None else seen
    if x is None or isinstance(x, (int, str, bool, float)): return x
    if isinstance(x, Any): return ('v', x.v.get_id())
    if id(x) in seen: return ('seen', seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, JMap): return ('map', id(x), [(snapshot(k, seen), snapshot(v, seen)) for k, v in x.d] if getattr(x, 'd', None) is not None else None)
    if isinstance(x, JList): return ('list', id(x), [snapshot(k, seen) for k in x.seq.items] if x.seq.items is not None else id(x.seq))
    if isinstance(x, Obj):
        if x.cls == '?cache': return ('cache', id(x))
        return ('obj', id(x), [(k, snapshot(v, seen)) for k, v in sorted(x.f.items())])
    return ('other', id(x))
def shared(x, seen=None):
    """the object and all it holds exist before the call that is looked at"""
    seen = set() if seen is None else seen
    if id(x) in seen: return
    seen.add(id(x))
    if isinstance(x, JMap):
        x.owner = None
        for k, v in getattr(x, 'd', None) or []: shared(k, seen); shared(v, seen)
    elif isinstance(x, JList):
        x.owner = None
        for k in x.seq.items or []: shared(k, seen)
    elif isinstance(x, Obj):
        x.owner = None
        for k, v in x.f.items():
            if not k.startswith('$') and x.cls != '?cache': shared(v, seen)
def parse_job(dump, job):
    """requests to one parser, one after the other: each gives what its own text and default field give"""
    c = Stub(dump, job); it = c.it; st = {}
    cls = CACHED if job.get('cached') else PARSERC
    n = job.get('requests', 2)
    def code():
        c.seeds = {}
        if job.get('cached'):
            size = z3.Const('cache_size', X.I); P().assume(X.in32(size), size >= 0)
            p = models.construct(it, cls, '(I)V', [size])
        else: p = models.construct(it, cls, '()V', [])
        out, rq = [], []
        del P().events[:]; it.held = 0      # the constructor's writes have a job of their own
        shared(p)
        for k in range(n):
            one = P().branch(z3.Const('one_argument%d' % k, X.B))
            e = anytext('text%d' % k, nullable=k == 0); d = Any(V.Null) if one else anytext('default%d' % k)
            c.cacheops = []
            before = snapshot(p)
            rq.append((e, d)); out.append(request(c, p, e, d, one))
            # a history of any length is one of two requests (the one that filled the entry, the one that reads it) if a request looks at one entry and keeps nothing else
            if len({str(x.v) if isinstance(x, Any) else id(x) for _, x in c.cacheops}) > 1 or any(o not in ('get', 'getIfPresent', 'put') for o, _ in c.cacheops) or snapshot(p) != before: it.bounded_used = True
        st['rq'] = rq
        return out
    def sp():
        out = []
        for e, d in st['rq']:
            try:
                if it.isnull(e): spec.fail('no text')
                out.append(('ret', c.expected(X.sel('Str', e.v), d.v)))
            except SpecFail as x: out.append(('fail', x))
        return out
    def cmp(co, so):
        if co[0] == 'fail' or so[0] == 'fail': return False
        fs = []
        for a, b in zip(co[1], so[1]):
            if a is verify.THREW: return False
            if job.get('total'): continue
            if a[0] != b[0]: return False
            if a[0] == 'ret': fs.append(match(it, a[1], b[1]))
        return conj(fs)
    return c, None, code, sp, cmp

def notfield_job(dump, job):
    """NOT before a bare field: the tree that the listener makes of it, evaluated"""
    c = contracts.Call(dump, job['lemmas']); it = c.it
    st = Stub(dump, dict(job, what='not', op=job.get('op', 'NOT'), tree='leaf'), it=it)
    s = z3.Const('name', S)
    def code():
        st.seeds = {}; st.allopaque = (); st.dflt = Any(V.Null)
        touch_s(s); P().assume(z3.Not(X.isblank(s)), X.slen(s) >= 1)
        lis = st.newlistener(st.dflt)
        ctx = st.ctx('NotExpression', [st.terminal(st.tok('NOT', job.get('op', 'NOT'))), st.leaf('FIELD', Any(V.Str(s)))], st.newtext('expr_text'))
        st.walk(lis, ctx)
        c.parsed['expression0'] = st.result(lis, ctx)
        try: t = it.call(contracts.BE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;Ljava/lang/String;)' + TRYD, [c.be, jstr('expression0'), c.data, jstr('field')])
        except JavaExc as e: return verify.THREW
        r = contracts.try_outcome(t)
        if r[0] == 'fail': raise r[1]
        return r[1]
    def sp():
        v = c.env.lookup(s)
        if not P().branch(X.isk('Bool', v)): spec.fail('no Boolean')
        return z3.Not(X.sel('Bool', v))
    return c, None, code, sp, None
def unparsed_job(dump, job):
    """a text that does not parse: the evaluators give a Failure, and evaluate nothing"""
    c = contracts.Call(dump, job['lemmas']); it = c.it
    n = SNode(z3.IntVal(0), NODEC)
    def code():
        t = anytext('text')
        c.parsed.clear()
        D = '(Ljava/lang/String;Ljava/util/Map;%s)' + TRYD
        try:
            if job['api'] == 'A': r = it.call(contracts.AE, 'evaluate', D % '', [c.ae, t, c.data])
            elif job['api'] == 2: r = it.call(contracts.BE, 'evaluate', D % '', [c.be, t, c.data])
            else: r = it.call(contracts.BE, 'evaluate', D % 'Ljava/lang/String;', [c.be, t, c.data, anytext('dflt')])
        except JavaExc as e: return verify.THREW
        r = contracts.try_outcome(r)
        if r[0] == 'fail': raise r[1]
        return r[1]
    def sp(): spec.fail('does not parse')
    return c, None, code, sp, None

def delegate_job(dump, job):
    """evaluate without a default field is evaluate with none: on any tree, with any outcome of it"""
    c = contracts.Call(dump, []); it = c.it
    n = SNode(z3.IntVal(5), NODEC)
    def code():
        P().assume(z3.Not(n.nullable)) if hasattr(n, 'nullable') else None
        c.opaque_root = 5; c.dflt = None
        ok = P().branch(P().fresh('parses', X.B))
        c.parsed.clear()
        if ok: c.parsed['expression0'] = n
        out = []
        for D, a in (('(Ljava/lang/String;Ljava/util/Map;)', []), ('(Ljava/lang/String;Ljava/util/Map;Ljava/lang/String;)', [None])):
            try: out.append(contracts.try_outcome(it.call(contracts.BE, 'evaluate', D + TRYD, [c.be, jstr('expression0'), c.data] + a)))
            except JavaExc as e: out.append(verify.THREW)
        return out
    def sp(): return None
    def cmp(co, so):
        if co[0] == 'fail': return False
        a, b = co[1]
        if a is verify.THREW or b is verify.THREW: return a is b
        if a[0] != b[0]: return False
        if a[0] == 'fail': return True
        x, y = verify.bool_term(a[1]), verify.bool_term(b[1])
        return z3.And(x[0], y[0], x[1] == y[1])
    return c, None, code, sp, cmp
def nofield_job(dump, job):
    """an operand is missing and there is no default field: evaluating fails"""
    c = contracts.Call(dump, job['lemmas']); it = c.it
    mk = lambda cls, **f: Obj(PK + spec.NODES[cls], **f)
    def code():
        f = mk('Field', field=None); u = mk('Unary', value=Any(V.Int(z3.Const('five', X.I))), dataType=const(it, 'DataType', 'INTEGER'))
        P().assume(X.in32(z3.Const('five', X.I)))
        w, which = job['what'], job['which']
        if w == 'Field': t = f
        elif w == 'Boolean': t = mk('Boolean', left=f, right=mk('Unary', value=Any(V.Bool(True)), dataType=const(it, 'DataType', 'BOOLEAN')), operator=const(it, 'LogicalOperationType', 'AND'))
        elif w == 'Comparison': t = mk('Comparison', left=f, right=u, operator=const(it, 'Operator', job['op']), dataType=const(it, 'DataType', 'INTEGER'))
        elif w == 'Arithmetic': t = mk('Arithmetic', left=f, right=u, operator=const(it, 'Operator', job['op']))
        for x in (f, u, t): x.owner = None
        c.parsed['expression0'] = t; c.dflt = None
        try:
            if which == 'A': r = it.call(contracts.AE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;)' + TRYD, [c.ae, jstr('expression0'), c.data])
            elif job.get('api') == 2: r = it.call(contracts.BE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;)' + TRYD, [c.be, jstr('expression0'), c.data])
            else: r = it.call(contracts.BE, 'evaluate', '(Ljava/lang/String;Ljava/util/Map;Ljava/lang/String;)' + TRYD, [c.be, jstr('expression0'), c.data, None])
        except JavaExc as e: return verify.THREW
        r = contracts.try_outcome(r)
        if r[0] == 'fail': raise r[1]
        return r[1]
    def sp(): spec.fail('no field')
    return c, None, code, sp, None

CONSTRUCT = {'BooleanExpressionEvaluator': contracts.BE, 'ArithmeticExpressionEvaluator': contracts.AE, 'BoolParser': PARSERC, 'CachedBoolParser': CACHED}
SAFE = ('java/util/EnumMap', 'java/util/concurrent/ConcurrentHashMap', 'java/util/concurrent/ConcurrentSkipListMap', 'java/util/concurrent/CopyOnWriteArrayList')
def registries(it):
    """what the static maps of the library hold: class of the value under each key"""
    out = {}
    for (c, f), v in it.statics.items():
        if isinstance(v, JMap) and getattr(v, 'd', None) is not None:
            out[(c, f)] = (v, {value_shape(k): value_shape(x) for k, x in v.d})
    return out
def value_shape(x, depth=4):
    if isinstance(x, Obj) and '$name' in x.f: return ('enum', x.cls, text(x.f['$name']))
    if isinstance(x, Obj) and depth: return ('obj', x.cls, tuple((k, value_shape(v, depth - 1)) for k, v in sorted(x.f.items())))
    if isinstance(x, Any): return ('value', str(x.v))
    return ('other', str(type(x)), str(x) if isinstance(x, (int, str, bool)) or x is None else '')
def construct_job(dump, job):
    """a constructor that runs while other threads use the library: what it writes to shared objects leaves the registries complete at every moment"""
    c = contracts.Call(dump, []); it = c.it
    st = Stub(dump, job, it=it)
    cls = CONSTRUCT[job['what']]
    if cls not in it.classes: raise Unsupported('no class ' + cls)
    def build():
        if cls in (contracts.BE, contracts.AE): return models.construct(it, cls, '(L%sparser/BoolExpressionParser;)V' % PK, [c.parser])
        if cls == CACHED:
            size = z3.Const('cache_size', X.I); P().assume(X.in32(size), size >= 0)
            return models.construct(it, cls, '(I)V', [size])
        return models.construct(it, cls, '()V', [])
    saved, core.Path.cur = core.Path.cur, None
    try:
        if cls == PARSERC: models.construct(it, cls, '()V', [])
        if cls == CACHED: models.construct(it, cls, '(I)V', [10])
    finally: core.Path.cur = saved
    init = registries(it); where = {id(v): k for k, (v, _) in init.items()}
    def code():
        bad = []; it.held = 0
        def verify_registries(when):
            now = registries(it)
            for k, (v, d) in init.items():
                n = now.get(k)
                if n is None: bad.append('%s.%s is taken away' % k); continue
                for key, shape in d.items():
                    if n[1].get(key) != shape: bad.append('an entry of %s.%s is missing or another, %s' % (k[0].split('/')[-1], k[1], when))
        def onwrite(o, what):
            if it.held: return
            verify_registries('in between')
            if o is None: return
            if not (isinstance(o, JMap) and o.cls in SAFE or o.cls in models.ATOMIC): bad.append('%s of a shared object that is not safe for threads (%s) is written' % (what, o.cls))
        it.onwrite = onwrite
        try:
            try: build()
            except JavaExc as e: bad.append('the constructor throws %s' % e.cls)
            it.onwrite = None
            verify_registries('at the end')
            for e in P().events:
                if e[0] == 'frame' and e[1].startswith('static field') and not e[1].endswith('lock)'): bad.append(e[1])
        finally: it.onwrite = None
        return bad
    def sp(): return None
    def cmp(co, so):
        if co[0] == 'fail': return False
        co[1] and P().ghost.__setitem__('why', co[1])
        return not co[1]
    return c, None, code, sp, cmp

def static_state(it):
    """the library's static state: fields and every object reachable from them, copied one by one"""
    seen, todo = {}, list(it.statics.values())
    while todo:
        o = todo.pop()
        if not isinstance(o, Obj) or id(o) in seen: continue
        seen[id(o)] = (o, {k: ([list(e) if isinstance(e, list) else e for e in v] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in o.__dict__.items()})
        todo += list(o.f.values())
        if isinstance(o, JMap): todo += [x for e in o.d for x in e]
        q = getattr(o, 'seq', None)
        if q is not None and q.items is not None: todo += list(q.items)
    return dict(it.statics), list(seen.values())
def restore(it, state):
    it.statics.clear(); it.statics.update(state[0])
    for o, d in state[1]:
        o.__dict__.clear()
        o.__dict__.update({k: ([list(e) if isinstance(e, list) else e for e in v] if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in d.items()})
def first_job(dump, job):
    """the first constructions of a process: a constructor that begins while another thread is anywhere in its own leaves the registries complete all the same"""
    bad = []
    def build(it, cls):
        if cls in (contracts.BE, contracts.AE): return models.construct(it, cls, '(L%sparser/BoolExpressionParser;)V' % PK, [parser])
        return models.construct(it, cls, '(I)V', [10]) if cls == CACHED else models.construct(it, cls, '()V', [])
    cls = CONSTRUCT[job['what']]; parser = Obj('?parser')
    trial = jvm.Interp(dump)
    if cls not in trial.classes: raise Unsupported('no class ' + cls)
    saved, core.Path.cur = core.Path.cur, None
    try:
        for c in CONSTRUCT.values():
            if c in trial.classes: build(trial, c)
        it = jvm.Interp(dump)
        for c in list(trial.inited):
            it.init(c)      # a static initialiser runs once, under the lock of its class
        fresh = static_state(it)
        build(it, cls)
        want = registries(it)
        for other, oc in CONSTRUCT.items():
            if oc not in it.classes: continue
            snaps = []
            restore(it, fresh)
            def trace(o):
                if any(k[1] == '<clinit>' for k, _ in it.stack): return
                s = static_state(it)
                if o is None or any(x is o for x, _ in s[1]): snaps.append((s, it.held > 0))
            it.trace = trace
            try: build(it, oc)
            finally: it.trace = None
            snaps.append((static_state(it), False)); done = snaps[-1][0]
            for n, (s, locked) in enumerate(snaps):
                restore(it, s); it.held = 0
                if locked: it.onlock = lambda: (setattr(it, 'onlock', None), restore(it, done))      # waits for the other thread to leave
                try: build(it, cls)
                except JavaExc as e: bad.append('it throws %s when it begins while %s is being constructed (after %d writes)' % (e.cls, other, n)); continue
                finally: it.onlock = None
                now = registries(it)
                for k, (_, d) in want.items():
                    for key, shape in d.items():
                        if k not in now or now[k][1].get(key) != shape:
                            bad.append('it ends with an entry of %s.%s missing or another (%s) when it begins while another thread is constructing %s (after %d of %d writes)' % (k[0].split('/')[-1], k[1], key[-1], other, n, len(snaps) - 1)); break
            job.setdefault('points', 0); job['points'] += len(snaps)
    finally: core.Path.cur = saved
    return bad
