"""The generated recognizer under contract.

Lexer: the transition network the lexer's interpreter holds, run by the rules of ANTLR's LexerATNSimulator (longest match, the
first of two rules, non-greedy loops), is compared with the tokens of the language, for texts of every length: both are finite
automata over classes of characters, with an output after each character, and the check is a bisimulation.

Parser: every rule method of the generated parser is executed symbolically, all paths, loops closed by equality of states; what it
does is a word of events: the context it creates, the tokens it matches, the rules it calls and with which precedence, the labels it
stores.  The words of a method have to be those of the grammar's rule (equality of regular languages), and the alternative the
prediction answers with has to be the one the transition network has under that number (the contract of adaptivePredict)."""
import json
PKG = 'com/github/sidhant92/boolparser/parser/antlr/'
GEN = PKG + 'BooleanExpressionParser'
LEX = PKG + 'BooleanExpressionLexer'
class Cannot(Exception): pass
class Wrong(Exception): pass
# ------------------------------------------------------------ finite automata
class Nfa:
    """edges[s] = [(label or None, t)]"""
    def __init__(self): self.edges = []; self.final = set()
    def state(self): self.edges.append([]); return len(self.edges) - 1
    def add(self, s, l, t): self.edges[s].append((l, t))
    def closure(self, ss):
        out = set(ss); todo = list(ss)
        while todo:
            for l, t in self.edges[todo.pop()]:
                if l is None and t not in out: out.add(t); todo.append(t)
        return frozenset(out)
    def step(self, ss):
        r = {}
        for s in ss:
            for l, t in self.edges[s]:
                if l is not None: r.setdefault(l, set()).add(t)
        return {l: self.closure(t) for l, t in r.items()}
def regex(e, n, a):
    """adds e from state a, returns the end state; e: None | label string | ('seq', ...) | ('alt', ...) | ('star', e)"""
    if e is None: return a
    if isinstance(e, str):
        b = n.state(); n.add(a, e, b); return b
    if e[0] == 'seq':
        for x in e[1:]: a = regex(x, n, a)
        return a
    if e[0] == 'alt':
        b = n.state()
        for x in e[1:]: n.add(regex(x, n, a), None, b)
        return b
    if e[0] == 'star':
        s = n.state(); n.add(a, None, s); n.add(regex(e[1], n, s), None, s)
        b = n.state(); n.add(s, None, b); return b
    raise AssertionError(e)
def same(n1, s1, n2, s2):
    """None, or a word in one of the languages only"""
    a, b = n1.closure([s1]), n2.closure([s2]); seen = {(a, b)}; todo = [((a, b), ())]; steps = 0
    for n in (n1, n2):          # states from which nothing is accepted are not words
        n.live = set(n.final); ch = True
        while ch:
            ch = False
            for s, es in enumerate(n.edges):
                if s not in n.live and any(t in n.live for _, t in es): n.live.add(s); ch = True
    while todo:
        (a, b), w = todo.pop(0); steps += 1
        fa, fb = bool(a & n1.final), bool(b & n2.final)
        if fa != fb: return w, 'code' if fa else 'grammar', steps
        sa, sb = n1.step(a), n2.step(b)
        for l in sorted(set(sa) | set(sb)):
            x, y = frozenset(sa.get(l, ())) & n1.live, frozenset(sb.get(l, ())) & n2.live
            if not x and not y: continue
            if not x or not y: return w + (l,), 'code' if x else 'grammar', steps
            if (x, y) not in seen: seen.add((x, y)); todo.append(((x, y), w + (l,)))
    return None, None, steps
# ------------------------------------------------------------ the lexer
D = [(48, 57)]
AL = D + [(65, 90), (97, 122)]
def text(*ts): return ('alt',) + tuple(('seq',) + tuple([(ord(c), ord(c))] for c in t) for t in ts)
def plus(e): return ('seq', e, ('star', e))
def notq(c): return [(0, ord(c) - 1), (ord(c) + 1, 0x10ffff)]
def quoted(c): return ('seq', [(ord(c), ord(c))], ('star', notq(c)), [(ord(c), ord(c))])
def rep(e, k): return ('seq',) + (e,) * k
def ch(c): return [(ord(c), ord(c))]
DATE = ('seq', rep(D, 4), ch('-'), rep(D, 2), ch('-'), rep(D, 2))
KEYWORDS = ('IN', 'TO', 'AND', 'OR', 'NOT', 'TRUE', 'FALSE', 'CONTAINS_ALL', 'CONTAINS_ANY', 'MIN', 'MAX', 'AVG', 'SUM', 'MEAN', 'MODE', 'MEDIAN', 'LEN', 'INT', 'DAYS_ELAPSED')
TOKENS = [("','", text(','))] + [(k, text(k, k.lower(), *{'AND': ['&&'], 'OR': ['||']}.get(k, []))) for k in KEYWORDS] + \
    [(k, text(v)) for k, v in (('ADD', '+'), ('SUBTRACT', '-'), ('MULTIPLY', '*'), ('DIVIDE', '/'), ('MODULUS', '%'), ('EXPONENT', '^'), ('NE', '!='), ('GT', '>'), ('GE', '>='), ('LT', '<'), ('LE', '<='), ('EQ', '='), ('LPAREN', '('), ('RPAREN', ')'))] + \
    [('DECIMAL', ('seq', plus(D), ch('.'), plus(D))), ('APP_VERSION', ('seq', D, plus(('seq', ch('.'), plus(D))))), ('INTEGER', plus(D)), ('DATE', DATE),
     ('DATETIME', ('seq', DATE, ch(' '), rep(D, 2), ch(':'), rep(D, 2), ch(':'), rep(D, 2))), ('blanks', plus([(9, 10), (12, 13), (32, 32)])), ('WORD', ('alt', quoted("'"), quoted('"'))), ('FIELD', plus(AL + [(95, 95), (46, 46)]))]
def cregex(e, n, a):
    if isinstance(e, list):
        b = n.state(); n.add(a, tuple(e), b); return b
    if e[0] == 'seq':
        for x in e[1:]: a = cregex(x, n, a)
        return a
    if e[0] == 'alt':
        b = n.state()
        for x in e[1:]: n.add(cregex(x, n, a), None, b)
        return b
    s = n.state(); n.add(a, None, s); n.add(cregex(e[1], n, s), None, s); b = n.state(); n.add(s, None, b); return b
def inset(s, c): return any(a <= c <= b for a, b in s)
class LexSim:
    """LexerATNSimulator, the conversion of the network to a deterministic automaton"""
    def __init__(self, a):
        self.a = a; self.S = {s['n']: s for s in a['states'] if s}; self.stop = set(a['stop'])
        if len(a['modes']) != 1: raise Cannot('lexer modes')
    def initial(self):
        out = []
        for i, t in enumerate(self.S[self.a['modes'][0]]['trans']): self.close((t['to'], i + 1, (), False, ()), out, False)
        return tuple(out)
    def put(self, out, c):
        if c not in out: out.append(c)
    def close(self, c, out, reached, depth=0):
        st, alt, ctx, ng, acts = c
        if depth > 400: raise Cannot('a token rule that calls itself')
        if st in self.stop:
            if not ctx: self.put(out, c); return True
            return self.close((ctx[-1], alt, ctx[:-1], ng, acts), out, reached, depth + 1)
        s = self.S[st]
        if not s['eps'] and (not reached or not ng): self.put(out, c)
        for t in s['trans']:
            k = t['kind']; to = t['to']; x, ac = ctx, acts
            if k == 'RuleTransition': x = ctx + (t['follow'],)
            elif k == 'ActionTransition': ac = acts + ((t['action'],) if not ctx or True else ())
            elif k in ('PredicateTransition', 'PrecedencePredicateTransition'): raise Cannot('a predicate in the lexer')
            elif k != 'EpsilonTransition': continue
            reached = self.close((to, alt, x, ng or bool(self.S[to].get('nongreedy')), ac), out, reached, depth + 1)
        return reached
    def step(self, cs, c):
        out = []; skip = 0
        for st, alt, ctx, ng, acts in cs:
            reached = alt == skip
            if reached and ng: continue
            for t in self.S[st]['trans']:
                k = t['kind']
                if k in ('AtomTransition', 'RangeTransition', 'SetTransition'): ok = inset(t['set'], c)
                elif k == 'NotSetTransition': ok = not inset(t['set'], c)
                elif k == 'WildcardTransition': ok = True
                else: continue
                if ok and self.close((t['to'], alt, ctx, ng or bool(self.S[t['to']].get('nongreedy')), acts), out, reached):
                    skip = alt; break
        return tuple(out)
    def out(self, cs):
        for st, alt, ctx, ng, acts in cs:
            if st in self.stop:
                a = [self.a['actions'][i] for i in acts]
                if a == ['skip']: return 'blanks'
                return self.a['symbols'][self.a['tokenOfRule'][self.S[st]['rule']]] + (' ' + ' '.join(a) if a else '')
        return None
def lexer(atn):
    """number of pairs of states; Wrong with a text otherwise"""
    a = atn['lexer']; sim = LexSim(a)
    n = Nfa(); starts = []; ends = []
    for name, e in TOKENS:
        s = n.state(); starts.append(s); ends.append(cregex(e, n, s))
    cuts = {0, 0x110000}
    for s in a['states']:
        for t in (s or {}).get('trans', []):
            for x, y in t.get('set', []): cuts.update(v for v in (x, y + 1) if 0 <= v)
    for es in n.edges:
        for l, t in es:
            for x, y in l or (): cuts.update((x, y + 1))
    cuts = sorted(cuts)
    reps = [c for c in cuts[:-1]]
    def rstep(ss, c):
        r = set()
        for s in ss:
            for l, t in n.edges[s]:
                if l is not None and inset(l, c): r.add(t)
        return n.closure(r)
    def rout(ss):
        for (name, e), end in zip(TOKENS, ends):
            if end in ss: return name
        return None
    x, y = sim.initial(), n.closure(starts)
    seen = {(frozenset(x), y)}; todo = [(x, y, '')]; pairs = 0
    while todo:
        x, y, w = todo.pop(0); pairs += 1
        if w and sim.out(x) != rout(y): raise Wrong('the text %r is %s for the lexer, %s in the language' % (w, sim.out(x) or 'no token', rout(y) or 'no token'))
        for c in reps:
            u, v = sim.step(x, c), rstep(y, c)
            if not u and not v: continue
            k = (u, v)
            if k not in seen: seen.add(k); todo.append((u, v, w + chr(c)))
        if pairs > 20000: raise Cannot('the automaton of the lexer is too large')
    return pairs
# ------------------------------------------------------------ the parser
OPS = ('Comparator', 'EXPONENT', 'DIVIDE', 'MULTIPLY', 'MODULUS', 'ADD', 'SUBTRACT', 'Binary')     # from the tightest
def X(k, lab=''):
    """an expression whose operators at the top are the k tightest ones"""
    return 'expression{%s}%s' % (','.join(OPS[:k]), lab)
ALL = len(OPS)
def N(c): return 'new ' + c
WORDS = lambda *ts: ('alt',) + ts
def ops():
    r = []
    for i, o in enumerate(OPS):
        c = o if o in ('Comparator', 'Binary') else 'Arithmetic'
        r.append(('seq', 'wrap %sExpression' % c, 'left=previous', 'level', {'Comparator': 'comparator', 'Binary': 'binary'}.get(o, o) + '>op', X(i, '>right')))
    return ('alt',) + tuple(r)
PRIMARY = {'Parent': ('seq', 'LPAREN', X(ALL), 'RPAREN'), 'Not': ('seq', 'NOT', X(0)), 'UnaryArithmetic': ('seq', 'SUBTRACT>op', X(1, '>exp')), 'ArithmeticFunction': ('seq', 'arithmeticFunction>left', 'wordlist>data'),
           'Types': 'types', 'To': ('seq', 'FIELD>field', 'numericTypes>lower', 'TO', 'numericTypes>upper'), 'In': ('seq', 'FIELD>field', ('alt', None, 'NOT>not'), 'IN', 'wordlist>data'),
           'Array': ('seq', 'FIELD>field', 'arrayOperators>op', 'wordlist>data')}
RULES = {
    'parse': ('seq', X(ALL), 'EOF'),
    'expression': ('seq', ('alt',) + tuple(('seq', N(c + 'Expression'), e) for c, e in PRIMARY.items()), ('star', ops())),
    'comparator': WORDS('GT', 'GE', 'LT', 'LE', 'EQ', 'NE'),
    'arithmeticFunction': WORDS('MIN', 'MAX', 'SUM', 'AVG', 'MEAN', 'MODE', 'LEN', 'MEDIAN', 'INT', 'DAYS_ELAPSED'),
    'wordlist': ('seq', 'LPAREN', X(ALL), ('star', ('seq', "','", X(ALL))), 'RPAREN'),
    'arrayOperators': WORDS('CONTAINS_ANY', 'CONTAINS_ALL'),
    'numericTypes': WORDS('INTEGER', 'DECIMAL'),
    'types': ('alt', None, 'INTEGER', 'DECIMAL', 'APP_VERSION', 'bool', 'WORD', 'FIELD', 'DATE', 'DATETIME'),
    'binary': WORDS('AND', 'OR'),
    'bool': WORDS('TRUE', 'FALSE'),
}
LABELS = {'op', 'left', 'right', 'exp', 'data', 'field', 'lower', 'upper', 'not'}
UNK = ('unk',)
CTXBASE = 'org/antlr/v4/runtime/ParserRuleContext'
class Method:
    """all paths of one generated rule method: states and edges labelled with events"""
    def __init__(self, dump, atn, rule, name, desc):
        self.dump, self.atn, self.rule, self.name = dump, atn['parser'], rule, name
        self.cls = dump['classes'][GEN]
        self.m = [m for m in self.cls['methods'] if m['name'] == name and m['desc'] == desc]
        if not self.m: raise Cannot('%s%s is gone' % (name, desc))
        self.m = self.m[0]; self.desc = desc; self.code = self.m['code']
        self.n = Nfa(); self.ids = {}; self.unknown = False; self.fail = set(); self.failedges = []
        self.ntok = len(self.atn['symbols'])
        self.run()
    def sub(self, c, base):
        seen = 0
        while c and seen < 20:
            if c == base: return True
            k = self.dump['classes'].get(c) or self.dump['external'].get(c)
            c = k['super'] if k else None; seen += 1
        return False
    # state: (pc, locals, stack, ctx, state number, la, last result, last real context, raised)
    def run(self):
        nargs = {'()': 1, '(I)': 2}[self.desc[:self.desc.index(')') + 1]]
        loc = (('this',),) + ((('param',),) if nargs == 2 else ())
        self.init = self.node((0, loc, (), ('caller',), ('callerstate',), None, None, False))
        while self.todo:
            st = self.todo.pop()
            src = self.ids[st]
            if len(self.ids) > 60000: raise Cannot('%s: too many states' % self.name)
            self.exec(st, src)
    todo = None
    def node(self, st):
        if self.todo is None: self.todo = []
        if st not in self.ids: self.ids[st] = self.n.state(); self.todo.append(st)
        return self.ids[st]
    def tokname(self, t): return 'EOF' if t == -1 else self.atn['symbols'][t] if 0 < t < self.ntok else 'no token'
    def exec(self, st, src):
        pc, loc, stk, ctx, num, la, last, raised = st
        stk = list(stk); code = self.code; start = pc
        def handlers(label):
            for a, b, h, ty in self.m['tries']:
                if a <= pc < b:
                    if ty is None: return
                    if ty.endswith('RecognitionException') or ty in ('java/lang/RuntimeException', 'java/lang/Exception', 'java/lang/Throwable'):
                        self.failedges.append(self.node((h, loc, (('exc',),), ctx, num, None, None, 'raised')))
                        return
        while True:
            i = code[pc]; op = i[0]
            nxt = pc + 1
            def go(npc, **k):
                self.n.add(src, k.get('label'), self.node((npc, k.get('loc', loc), tuple(k.get('stk', stk)), k.get('ctx', ctx), k.get('num', num), k.get('la', la), k.get('last', last), k.get('raised', raised))))
            if op in ('ALOAD', 'ILOAD', 'LLOAD', 'DLOAD', 'FLOAD'):
                stk.append(loc[i[2]] if i[2] < len(loc) else UNK)
            elif op in ('ASTORE', 'ISTORE', 'LSTORE', 'DSTORE', 'FSTORE'):
                l = list(loc) + [UNK] * (i[2] + 1 - len(loc)); l[i[2]] = stk.pop(); loc = tuple(l)
            elif op == 'IINC':
                l = list(loc); v = l[i[2]]; l[i[2]] = ('int', v[1] + i[3]) if v[0] == 'int' and abs(v[1]) < 100 else UNK; loc = tuple(l)
            elif op.startswith('ICONST') or op.startswith('LCONST'): stk.append(('int', -1 if op.endswith('M1') else int(op[-1])))
            elif op in ('BIPUSH', 'SIPUSH'): stk.append(('int', i[2]))
            elif op == 'LDC': stk.append(('int', i[2][1]) if i[2] and i[2][0] in 'IJ' else ('const', str(i[2])))
            elif op == 'ACONST_NULL': stk.append(('null',))
            elif op in ('I2L', 'L2I', 'CHECKCAST', 'NOP', 'I2B', 'I2C', 'I2S'): pass
            elif op == 'POP': stk.pop()
            elif op == 'POP2': raise Cannot(op)
            elif op == 'DUP': stk.append(stk[-1])
            elif op == 'DUP_X1': a, b = stk.pop(), stk.pop(); stk += [a, b, a]
            elif op == 'SWAP': a, b = stk.pop(), stk.pop(); stk += [a, b]
            elif op in ('IAND', 'LAND', 'IOR', 'LOR', 'IXOR', 'LXOR', 'ISHL', 'LSHL', 'IADD', 'ISUB', 'LADD', 'LSUB', 'LCMP', 'IMUL', 'LMUL', 'ISHR', 'LSHR', 'IUSHR', 'LUSHR'):
                b, a = stk.pop(), stk.pop()
                if a[0] != 'int' or b[0] != 'int': stk.append(UNK)
                else:
                    x, y = a[1], b[1]; w = 64 if op[0] == 'L' else 32
                    r = {'AND': lambda: x & y, 'OR': lambda: x | y, 'XOR': lambda: x ^ y, 'SHL': lambda: x << (y & (w - 1)), 'ADD': lambda: x + y, 'SUB': lambda: x - y, 'CMP': lambda: (x > y) - (x < y), 'MUL': lambda: x * y, 'SHR': lambda: x >> (y & (w - 1)), 'USHR': lambda: (x & (2 ** w - 1)) >> (y & (w - 1))}[op[1:]]()
                    r &= 2 ** w - 1
                    stk.append(('int', r - 2 ** w if r >= 2 ** (w - 1) else r))
            elif op == 'INEG' or op == 'LNEG': a = stk.pop(); stk.append(('int', -a[1]) if a[0] == 'int' else UNK)
            elif op == 'GOTO': nxt = i[2]
            elif op.startswith('IF'):
                b = stk.pop()
                if op.startswith('IF_'): a = stk.pop()
                else: a, b = b, ('int', 0)
                c = None
                if op in ('IFNULL', 'IFNONNULL'):
                    v = a; c = None if v[0] in ('unk', 'listeners') else (v[0] == 'null') == (op == 'IFNULL')
                    if v[0] == 'listeners': c = op == 'IFNULL'      # no parse listeners are installed: checked by the obligations of the parser
                elif a[0] == b[0] == 'int': x, y = a[1], b[1]; c = {'EQ': x == y, 'NE': x != y, 'LT': x < y, 'GE': x >= y, 'GT': x > y, 'LE': x <= y}[op[-2:]]
                elif op.startswith('IF_ACMP') and UNK not in (a, b): c = (a == b) == op.endswith('EQ')
                if c is None:
                    self.unknown = True; go(i[2]); go(nxt); return
                if c: nxt = i[2]
            elif op in ('TABLESWITCH', 'LOOKUPSWITCH'):
                v = stk.pop()
                if v[0] != 'int':
                    self.unknown = True
                    for t in set(list(i[2].values()) + [i[3]]): go(t)
                    return
                nxt = i[2].get(str(v[1]), i[3])
            elif op == 'NEW':
                old = ('obj', pc, i[2]); stale = ('stale', i[2])
                f = lambda v: stale if v == old else v
                stk = [f(v) for v in stk]; loc = tuple(f(v) for v in loc); ctx = f(ctx)
                stk.append(old)
            elif op == 'GETFIELD':
                o = stk.pop()
                if o == ('this',):
                    stk.append({'_ctx': ctx, '_input': ('input',), '_errHandler': ('handler',), '_interp': ('interp',), '_parseListeners': ('listeners',), '_precedenceStack': UNK, 'matchedEOF': UNK}.get(i[3], UNK))
                else: stk.append(UNK)
            elif op == 'PUTFIELD':
                v, o = stk.pop(), stk.pop()
                if o == ('this',):
                    if i[3] == '_ctx':
                        if raised: raise Cannot('_ctx after an error')
                        if v[0] == 'obj' and ctx[0] == 'obj' and ctx[2] == GEN + '$ExpressionContext':
                            go(nxt, ctx=v, label='new ' + self.short(v)); return
                        go(nxt, ctx=v, label='bad: _ctx = %s' % (v,)); return
                    if i[3] not in ('matchedEOF',): raise Cannot('%s writes %s' % (self.name, i[3]))
                elif o[0] == 'obj':
                    if i[3] == 'exception':
                        if v == ('exc',) and raised: raised = ('set', o); nxt = pc + 1
                        else: raise Cannot('exception')
                    elif i[3] in LABELS:
                        if v == ctx and o != ctx: lab = 'pre ' + i[3]; go(nxt, last=('pre', o, i[3])); return
                        if last and v == last and o == ctx: go(nxt, label='>' + i[3], last=None); return
                        go(nxt, label='bad: %s = %s' % (i[3], v[0])); return
                    elif i[3] == 'stop': pass
                    elif i[3] in ('first', 'rest'): pass
                    else: raise Cannot('%s writes %s of a context' % (self.name, i[3]))
                else: raise Cannot('%s writes %s.%s' % (self.name, i[2].split('$')[-1], i[3]))
            elif op == 'GETSTATIC':
                stk.append(UNK)
            elif op in ('INVOKEVIRTUAL', 'INVOKESPECIAL', 'INVOKEINTERFACE', 'INVOKESTATIC'):
                ds = self.parse(i[4]); args = [stk.pop() for _ in ds][::-1]
                recv = None if op == 'INVOKESTATIC' else stk.pop()
                if self.call(st, src, pc, loc, stk, ctx, num, la, last, raised, op, i, recv, args, handlers, go): return
                la, num, ctx, last, raised = self.upd
            elif op == 'ATHROW':
                stk.pop()
                handlers('throw'); return
            elif op == 'ARETURN':
                v = stk.pop(); end = self.n.state(); self.n.final.add(end)
                if raised:
                    if raised == 'raised' or raised[1] != v: self.fail.add(end); self.n.final.discard(end); self.n.add(src, 'swallowed', end)
                    else: self.n.final.discard(end); self.n.add(src, 'failed', end)
                    return
                self.n.add(src, None if ctx == ('done', v) else 'bad: returns %s, the context is %s' % (v, ctx), end); return
            else: raise Cannot('%s in %s' % (op, self.name))
            pc = nxt
            if pc != start + 1 and (nxt <= start or op == 'GOTO'):
                go(pc); return
    @staticmethod
    def parse(desc):
        out = []; i = 1
        while desc[i] != ')':
            j = i
            while desc[j] == '[': j += 1
            j = desc.index(';', j) + 1 if desc[j] == 'L' else j + 1
            out.append(desc[i:j]); i = j
        return out
    def short(self, v):
        c = v[2].split('$')[-1]
        return c[:-7] if c.endswith('Context') else c
    def call(self, st, src, pc, loc, stk, ctx, num, la, last, raised, op, i, recv, args, handlers, go):
        """True: edges were added; else self.upd"""
        owner, name, desc = i[2], i[3], i[4]; nxt = pc + 1
        self.upd = (la, num, ctx, last, raised)
        def push(v): stk.append(v)
        def event(label, res=None, **k):
            """an event that can fail"""
            if not raised: handlers(label)
            s2 = list(stk)
            if res is not None:
                f = lambda v: ('stale', 'result') if v == res else v
                s2 = [f(v) for v in s2] + [res]; k['loc'] = tuple(f(v) for v in loc)
            go(nxt, label=label, stk=s2, last=res, **k); return True
        if recv == ('this',):
            rules = {m: n for n, m in self.rulemethods().items()}
            if name == 'getState': push(num); return False
            if name == 'setState':
                if args[0][0] != 'int': raise Cannot('setState')
                self.upd = (la, args[0], ctx, last, raised); return False
            if name in ('enterRule', 'enterRecursionRule'):
                want = [('int', self.atn['start'][self.rule]), ('int', self.rule)] + ([('param',)] if name == 'enterRecursionRule' else [])
                if args[1:] != want: go(nxt, label='bad: %s(%s)' % (name, args[1:]), stk=stk); return True
                self.upd = (la, args[1], args[0], last, raised); return False
            if name == 'enterOuterAlt':
                if args[0] != ctx: go(nxt, label='bad: enterOuterAlt', stk=stk); return True
                return False
            if name == 'exitRule':
                self.upd = (la, num, ('done', ctx), last, raised); return False
            if name == 'unrollRecursionContexts':
                if args[0] != ('caller',): go(nxt, label='bad: unrollRecursionContexts', stk=stk); return True
                self.upd = (la, num, ('done', ctx), last, raised); return False
            if name == 'pushNewRecursionContext':
                if args[1:] != [('int', self.atn['start'][self.rule]), ('int', self.rule)] or args[0][0] != 'obj': go(nxt, label='bad: pushNewRecursionContext', stk=stk); return True
                pre = last if last and last[0] == 'pre' and last[1] == args[0] else None
                mid = self.n.state(); self.n.add(src, 'wrap ' + self.short(args[0]), mid)
                b = self.node((nxt, loc, tuple(stk), args[0], num, None, None, raised))
                self.n.add(mid, '%s=previous' % pre[2] if pre else None, b); return True
            if name == 'triggerExitRuleEvent': raise Cannot('parse listeners')
            if name == 'precpred':
                if args[0] != ctx or args[1][0] != 'int': raise Cannot('precpred')
                if not raised: handlers('level')
                s2 = list(stk) + [('int', 1)]
                go(nxt, label='level %d @%s' % (args[1][1], num[1]), stk=s2); return True
            if name == 'match':
                if args[0][0] != 'int': raise Cannot('match')
                if la is not None and la != args[0][1]: return True if handlers('x') is None else True
                return event('%s @%s' % (self.tokname(args[0][1]), num[1]), ('tok', pc), la=None)
            if name == 'consume':
                if la is None: raise Cannot('consume without looking')
                return event('%s @%s' % (self.tokname(la), num[1]), ('tok', pc), la=None)
            if name in rules:
                r = rules[name]
                if la is not None: raise Cannot('%s calls %s after looking at a token' % (self.name, r))
                p = 0
                if args:
                    if args[0][0] != 'int': raise Cannot('precedence')
                    p = args[0][1]
                return event('call %s %d @%s' % (r, p, num[1]), ('res', pc), la=None)
            if name == 'getInterpreter': push(('interp',)); return False
            if name == 'getContext': push(ctx); return False
            if name in ('getTokenStream', 'getInputStream'): push(('input',)); return False
            if name == 'getErrorHandler': push(('handler',)); return False
            raise Cannot('%s calls %s' % (self.name, name))
        if recv == ('handler',):
            if name == 'sync':
                if not raised: handlers('sync')
                go(nxt, label='sync @%s' % num[1], stk=stk); return True
            if name == 'recoverInline':
                if not raised: handlers('recover')
                return True                 # the text is not in the language: reported, and the tree shows it or the exception does
            if name in ('reportMatch', 'reportError', 'recover'): return False
            raise Cannot('error handler ' + name)
        if recv == ('interp',) and name == 'adaptivePredict':
            if args[0] != ('input',) or args[1][0] != 'int' or args[2] != ctx: raise Cannot('adaptivePredict')
            if not raised: handlers('predict')
            d = args[1][1]
            ds = [s for s in self.atn['states'] if s and s.get('decision') == d]
            if not ds: raise Cannot('decision')
            for k in range(1, len(ds[0]['trans']) + 1):
                go(nxt, label='choice %d.%d @%s' % (d, k, num[1]), stk=list(stk) + [('int', k)])
            return True
        if recv == ('input',):
            if name == 'LA' and args == [('int', 1)]:
                if la is not None: push(('int', la)); return False
                for t in [-1] + list(range(1, self.ntok)): go(nxt, stk=list(stk) + [('int', t)], la=t)
                return True
            if name == 'LT': push(UNK); return False
            raise Cannot('input ' + name)
        if recv and recv[0] == 'obj' and name == '<init>':
            c = recv[2]
            if self.sub(c, CTXBASE):
                k = self.dump['classes'][c]
                if desc == '(L%s;I)V' % CTXBASE:
                    ok = (args == [('caller',), ('callerstate',)])
                    if not self.plain_ctor(c, desc): raise Cannot('constructor of ' + c)
                    if not ok: go(nxt, label='bad: %s(%s)' % (self.short(recv), args), stk=stk); return True
                    return False
                if desc == '(L%s$ExpressionContext;)V' % GEN:
                    if not self.copy_ctor(c, desc): raise Cannot('constructor of ' + c)
                    if args[0][0] != 'obj' or args[0][2] != GEN + '$ExpressionContext': go(nxt, label='bad: %s(%s)' % (self.short(recv), args), stk=stk); return True
                    return False
                raise Cannot('constructor of ' + c)
            if c.endswith('Exception') and (self.sub(c, 'org/antlr/v4/runtime/RecognitionException') or True): return False
            return False
        if owner.startswith(('java/lang/', 'java/util/')):
            rt = desc[desc.index(')') + 1:]
            if rt != 'V': push(UNK)
            return False
        raise Cannot('%s calls %s.%s' % (self.name, owner.split('/')[-1], name))
    def ctor(self, c, desc):
        m = [m for m in self.dump['classes'][c]['methods'] if m['name'] == '<init>' and m['desc'] == desc]
        return [tuple(x[:1] + x[2:]) for x in m[0]['code']] if m else None
    def plain_ctor(self, c, desc):
        sup = self.dump['classes'][c]['super']
        return self.ctor(c, desc) == [('ALOAD', 0), ('ALOAD', 1), ('ILOAD', 2), ('INVOKESPECIAL', sup, '<init>', desc), ('RETURN',)] and sup == CTXBASE
    def copy_ctor(self, c, desc):
        E = GEN + '$ExpressionContext'
        cp = [m for m in self.dump['classes'][E]['methods'] if m['name'] == 'copyFrom']
        return self.ctor(c, desc) == [('ALOAD', 0), ('INVOKESPECIAL', E, '<init>', '()V'), ('ALOAD', 0), ('ALOAD', 1), ('INVOKEVIRTUAL', c, 'copyFrom', desc), ('RETURN',)] \
            and len(cp) == 1 and [tuple(x[:1] + x[2:]) for x in cp[0]['code']] == [('ALOAD', 0), ('ALOAD', 1), ('INVOKESPECIAL', CTXBASE, 'copyFrom', '(L%s;)V' % CTXBASE), ('RETURN',)] \
            and not any(m['name'] == 'copyFrom' for m in self.dump['classes'][c]['methods'])
    def rulemethods(self):
        return {r: r for r in self.atn['rules']}
def atn_nfa(a, rule, decisions):
    """the network of a rule, with the choices of the given decisions as events"""
    S = {s['n']: s for s in a['states'] if s}
    n = Nfa()
    for _ in range(max(S) + 1): n.state()
    n.final = {a['stop'][rule]}
    def tok(t): return 'EOF' if t == -1 else a['symbols'][t]
    for s in S.values():
        if s['rule'] != rule or s['n'] == a['stop'][rule]: continue
        for i, t in enumerate(s['trans']):
            src = s['n']
            if s.get('decision', -1) in decisions:
                x = n.state(); n.add(src, 'choice %d.%d' % (s['decision'], i + 1), x); src = x
            k = t['kind']
            if k == 'RuleTransition': n.add(src, 'call %s %d @%d' % (a['rules'][t['rule']], t['prec'], s['n']), t['follow'])
            elif k == 'PrecedencePredicateTransition': n.add(src, 'level %d' % t['level'], t['to'])
            elif k in ('EpsilonTransition', 'ActionTransition'): n.add(src, None, t['to'])
            elif k in ('AtomTransition', 'SetTransition', 'RangeTransition'):
                for x, y in t['set']:
                    for v in range(x, y + 1): n.add(src, tok(v), t['to'])
            else: raise Cannot(k)
    return n, a['start'][rule]
def relabel(n, f):
    """a copy with labels mapped: None: no event, False: the edge is removed"""
    r = Nfa(); r.final = set(n.final)
    for es in n.edges:
        r.state()
        for l, t in es:
            x = f(l) if l is not None else None
            if x is not False: r.edges[-1].append((x, t))
    return r
def parser(dump, atn, only=None):
    """dict rule -> number of states compared; Wrong otherwise"""
    a = atn['parser']; out = {}
    names = a['rules']; ms = {}
    desc = lambda r: '(I)' if r == 'expression' else '()'
    for r in RULES:
        if r not in names: raise Cannot('rule %s is gone' % r)
        cls = '$%sContext;' % (r[0].upper() + r[1:])
        m = Method(dump, atn, names.index(r), r, '%sL%s%s' % (desc(r), GEN, cls)); ms[r] = m
    # the levels of the operators: from the words level, operator
    m = ms['expression']; levels = {}
    for es in m.n.edges:
        for l, t in es:
            if l and l.startswith('level '):
                lv = int(l.split()[1])
                for x in reach(m.n, t):
                    levels.setdefault({'call comparator': 'Comparator', 'call binary': 'Binary'}.get(' '.join(x.split()[:2]) if x.startswith('call') else x, x.split(' @')[0]), set()).add(lv)
    for k, v in levels.items():
        if len(v) != 1: raise Wrong('the operator %s has the levels %s' % (k, sorted(v)))
    levels = {k: min(v) for k, v in levels.items()}
    def tight(p): return 'expression{%s}' % ','.join(o for o in OPS if levels.get(o, -1) >= p)
    for r, m in ms.items():
        # (1) against the network
        dec = {int(l.split()[1].split('.')[0]) for es in m.n.edges for l, t in es if l and l.startswith('choice')}
        n2, s2 = atn_nfa(a, names.index(r), dec)
        WS = lambda l: False if l.split(' @')[0] == 'WS' else None
        def code1(l):
            if l in ('failed', 'swallowed'): return False
            if l.startswith(('new ', 'wrap ', '>', 'sync')) or l.endswith('=previous'): return None
            if l.startswith('call'): return l
            return l.split(' @')[0]
        w, side, k1 = same(relabel(m.n, code1), m.init, n2, s2)
        if w is not None: raise (Cannot if m.unknown else Wrong)('method %s and the transition network: %s, only for the %s' % (r, ' '.join(w), 'method' if side == 'code' else 'network'))
        check_sync(m, a, names.index(r), dec)
        # (2) errors are not swallowed
        if any(l == 'swallowed' for es in m.n.edges for l, t in es): raise Wrong('method %s returns after an error without recording it' % r)
        if not m.failedges: raise Wrong('method %s records no error' % r)
        # (3) against the grammar
        g = Nfa(); s = g.state(); g.final = {regex(RULES[r], g, s)}
        toks = set(a['symbols']) | {'EOF'}
        def code3(l):
            if l in ('failed', 'swallowed') or l.split(' @')[0] == 'WS': return False
            if l.startswith('sync') or l.startswith('choice'): return None
            if l.startswith('call expression'): return tight(int(l.split()[2]))
            if l.startswith('call'): return l.split()[1]
            if l.startswith('level'): return 'level'
            return l.split(' @')[0]
        merged = labels(relabel(m.n, code3))
        w, side, k2 = same(merged, m.init, g, s)
        if w is not None: raise (Cannot if m.unknown else Wrong)('rule %s: %s, only in the %s' % (r, ' '.join(w), 'method' if side == 'code' else 'grammar'))
        out[r] = k1 + k2
    # (4) which of two alternatives that both fit is taken: unary minus before the empty operand, another operator before the end
    m = ms['expression']
    first = {}
    for es in m.n.edges:
        for l, t in es:
            if l and l.startswith('choice'):
                d, k = l.split()[1].split('.')
                for x in reach(m.n, t):
                    if x.startswith('new '): first[x[4:]] = int(k)
                    if x.startswith(('choice', 'wrap')): first[('loop', d)] = int(k)
    if not first.get('UnaryArithmeticExpression', 99) < first.get('TypesExpression', 0): raise Wrong('a minus before an operand: the empty operand is preferred')
    loop = [k for (x, k) in first.items() if isinstance(x, tuple)]
    if not loop or any(k != 1 and False for k in loop): raise Cannot('loop of operators')
    ent = [s for s in a['states'] if s and s['kind'] == 'StarLoopEntryState' and s['rule'] == names.index('expression')]
    if len(ent) != 1 or not ent[0].get('precedence') or ent[0]['nongreedy']: raise Wrong('the loop of operators is no precedence decision')
    S = {s['n']: s for s in a['states'] if s}
    if S[ent[0]['trans'][0]['to']]['kind'] == 'LoopEndState': raise Wrong('the loop of operators prefers its end')
    pub = [x for x in dump['classes'][GEN]['methods'] if x['name'] == 'expression' and x['desc'].startswith('()')]
    runtime = {'getTokenNames', 'getVocabulary', 'getGrammarFileName', 'getRuleNames', 'getSerializedATN', 'getATN', '<init>', 'sempred', 'expression_sempred', 'makeRuleNames', 'makeLiteralNames', 'makeSymbolicNames', '<clinit>', 'getChannelNames', 'getModeNames'} | set(names)
    for c in (GEN, LEX):
        extra = [x['name'] for x in dump['classes'][c]['methods'] if x['name'] not in runtime and not x['name'].startswith('lambda$') and not x['access'] & 2]
        if extra: raise Cannot('%s defines %s' % (c.split('/')[-1], ', '.join(sorted(extra))))
    return out
def reach(n, s):
    """the first events from s on, looking through what is only bookkeeping"""
    out = set(); seen = set(); todo = [s]
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        for l, t in n.edges[x]:
            if l is None or l.startswith('sync'): todo.append(t)
            else: out.add(l)
    return out
def labels(n):
    """folds the event of a label into the event before it"""
    r = Nfa(); ids = {}
    def node(k):
        if k not in ids: ids[k] = r.state(); todo.append(k)
        return ids[k]
    todo = []
    for i in range(len(n.edges)): node((i, None))
    r.final = set(n.final)
    while todo:
        i, pend = todo.pop(); me = ids[(i, pend)]
        if pend is None:
            for l, t in n.edges[i]:
                if l is None: r.add(me, None, node((t, None)))
                elif l.startswith(('new ', 'wrap ', 'level', 'bad')) or l.endswith('=previous'): r.add(me, l, node((t, None)))
                elif l.startswith('>'): r.add(me, 'bad: label ' + l, node((t, None)))
                else: r.add(me, None, node((t, l)))
        else:
            other = False
            for l, t in n.edges[i]:
                if l is None: r.add(me, None, node((t, pend)))
                elif l.startswith('>'): r.add(me, pend + l, node((t, None)))
                else: other = True
            if other or i in n.final: r.add(me, pend, ids[(i, None)])
    # a state reached with a pending event that is final, or goes on, gives the event without a label
    return r
def check_sync(m, a, rule, dec):
    """the error handler's check before a decision looks at the state the method is at"""
    S = {s['n']: s for s in a['states'] if s}
    def close(ss):
        out = set(ss); todo = list(ss)
        while todo:
            s = S[todo.pop()]
            if s['n'] == a['stop'][rule]: continue
            for t in s['trans']:
                if t['kind'] in ('EpsilonTransition', 'ActionTransition') and t['to'] not in out: out.add(t['to']); todo.append(t['to'])
        return out
    def firsts(ss):
        r = set()
        for x in close(ss):
            if x == a['stop'][rule]: r.add('stop'); continue
            for t in S[x]['trans']:
                if t['kind'] not in ('EpsilonTransition', 'ActionTransition'): r.add((x, t['to']))
        return r
    known = {i: st[5] for st, i in m.ids.items()}
    def fits(f, la):
        """drops the tokens that are not the one the method has looked at"""
        def ok(e):
            if e == 'stop' or la is None: return True
            return any(t['to'] == e[1] and (t['kind'] in ('RuleTransition', 'PrecedencePredicateTransition') or inset(t['set'], la)) for t in S[e[0]]['trans'])
        return {e for e in f if ok(e)}
    # positions of the network a state of the method can be at
    pos = {}
    todo = [(m.init, frozenset(close({a['start'][rule]})))]
    while todo:
        i, ps = todo.pop()
        if ps <= pos.get(i, set()) and i in pos: continue
        pos[i] = pos.get(i, set()) | ps; ps = frozenset(pos[i])
        for l, t in m.n.edges[i]:
            if l in ('failed', 'swallowed') or (l and l.startswith('bad')): continue
            q = ps
            if l is None or l.startswith(('new ', 'wrap ', '>')) or l.endswith('=previous'): pass
            elif l.startswith('sync'):
                pass
            elif l.startswith('choice'):
                d, k = l.split()[1].split('.')
                q = set()
                for x in ps:
                    if S[x].get('decision') == int(d): q |= close({S[x]['trans'][int(k) - 1]['to']})
            else:
                q = set(); b = l.split(' @')[0]
                for x in ps:
                    if x == a['stop'][rule]: continue
                    for tr in S[x]['trans']:
                        k = tr['kind']
                        if k == 'RuleTransition': h = 'call %s %d' % (a['rules'][tr['rule']], tr['prec']) == b; to = tr['follow']
                        elif k == 'PrecedencePredicateTransition': h = b == 'level %d' % tr['level']; to = tr['to']
                        elif k in ('EpsilonTransition', 'ActionTransition'): continue
                        else: h = any(x1 <= v <= y1 for x1, y1 in tr['set'] for v in ([-1] if b == 'EOF' else [a['symbols'].index(b)] if b in a['symbols'] else [])); to = tr['to']
                        if h: q |= close({to})
            if q: todo.append((t, frozenset(q)))
    # a look at the next token leaves no token behind that may come next
    live = set(m.n.final); ch = True
    while ch:
        ch = False
        for s, es in enumerate(m.n.edges):
            if s not in live and any(t in live and l not in ('failed', 'swallowed') for l, t in es): live.add(s); ch = True
    for i, la in known.items():
        if la is not None and i in pos and i not in live and fits(firsts(pos[i]), la): raise Wrong('method %s: %s may come next, and there is no way on' % (m.name, m.tokname(la)))
    for i, es in enumerate(m.n.edges):
        for l, t in es:
            if l and l.startswith('sync'):
                s = int(l.split('@')[1])
                if i in pos and not fits(firsts(pos[i]), known.get(i)) <= firsts({s}): raise Wrong('method %s checks the input against state %d, where other tokens may follow than the ones the method accepts' % (m.name, s))
def check(dump, atn, what):
    """(status, detail, number of obligations)"""
    if not atn: return 'unsupported', 'the transition networks could not be read', 0, 0
    try:
        if what == 'lexer': k = lexer(atn); return 'proved', '', 1, k
        r = parser(dump, atn); return 'proved', '', 4 * len(r), sum(r.values())
    except Wrong as e: return 'refuted', str(e), 0, 0
    except Cannot as e: return 'unsupported', str(e), 0, 0
    except Exception as e: return 'unsupported', 'internal error: %r' % e, 0, 0
if __name__ == '__main__':
    import sys, time
    d = json.load(open(sys.argv[1])); a = json.load(open(sys.argv[2]))
    for w in ('lexer', 'parser'):
        t = time.time(); print(w, check(d, a, w), round(time.time() - t, 2))
