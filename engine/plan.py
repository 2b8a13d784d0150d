"""Which obligations decide which property."""
from contracts import AOPS, FTYPES, LEMMAS
ORD = ('GREATER_THAN', 'GREATER_THAN_EQUAL', 'LESS_THAN', 'LESS_THAN_EQUAL')
CMP = ('EQUALS', 'NOT_EQUAL') + ORD
CONTAINS = ('CONTAINS_ANY', 'CONTAINS_ALL')
def E(which, cls, op=None, **kw): return dict(kind='entry', which=which, cls=cls, op=op, **kw)
def name(j):
    if j['kind'] == 'entry': n = '%s evaluator on %s%s' % ('boolean' if j['which'] == 'B' else 'arithmetic', j['cls'], ' ' + j['op'] if j.get('op') else '')
    elif j['kind'] == 'lemma': n = 'contract ' + j['lemma']
    elif j['kind'] == 'listen': n = 'listener at the end of a%s %s' % ({'in': 'n', 'unary': 'n', 'arithmetic': 'n', 'array': 'n'}.get(j['what'], ''), {'in': 'IN expression', 'not': 'NOT expression', 'to': 'TO expression', 'parent': 'expression in parentheses', 'unary': 'unary minus'}.get(j['what'], j['what'])) + (' ' + j['op'] if j.get('op') else '')
    elif j['kind'] == 'construct': n = 'constructor of ' + j['what'] + ' beside other threads'
    elif j['kind'] == 'first': n = 'first construction of ' + j['what'] + ' beside other first constructions'
    elif j['kind'] == 'relation': n = 'relation of the operators: ' + j['what']
    elif j['kind'] == 'root': n = 'listener at the end of the text'
    elif j['kind'] == 'parse': n = '%s parser, %d requests' % ('caching' if j.get('cached') else 'plain', j.get('requests', 2))
    elif j['kind'] == 'notfield': n = 'NOT before a bare field (%s), parsed and evaluated' % j['op']
    elif j['kind'] == 'ghost': n = 'lemmas about sums, minima, order statistics and counts of a list, by induction'
    elif j['kind'] == 'recog': n = 'tokens of the language, the lexer of any text' if j['what'] == 'lexer' else 'rule methods of the generated parser against the grammar'
    elif j['kind'] == 'delegate': n = 'boolean evaluator without a default field argument'
    elif j['kind'] == 'nofield': n = '%s evaluator%s, no default field and no operand: %s%s' % ('boolean' if j['which'] == 'B' else 'arithmetic', ' (two arguments)' if j.get('api') else '', j['what'], ' ' + j['op'] if j.get('op') else '')
    elif j['kind'] == 'unparsed': n = {'A': 'arithmetic evaluator', 2: 'boolean evaluator', 3: 'boolean evaluator with a default field'}[j['api']] + ' on a text that does not parse'
    else: n = j['kind'] + ' ' + ' '.join(str(j[k]) for k in ('what', 'op', 'symbol', 'ctx') if j.get(k))
    if j.get('total'): n += ' [a result or a Failure]'
    if j['kind'] == 'entry' and j.get('api'): n += ' (without default field)'
    if j.get('filter'): n += ' [%s]' % j['filter']
    return n
FUNS = ('MIN', 'MAX', 'AVG', 'SUM', 'MEAN', 'MODE', 'MEDIAN', 'INT', 'LEN', 'DAYS_ELAPSED')
def L(what, *ops): return [dict(kind='listen', what=what, op=o, fallback=dict(tree='leaf')) for o in ops or (None,)]
def PARSE(**kw): return dict(dict(kind='parse', requests=2, budget=100), **kw)
OPERATORS = L('binary', 'AND', 'and', '&&', 'OR', 'or', '||') + L('comparator', '>', '>=', '<', '<=', '=', '!=') + L('arithmetic', *'+-*/%^') + L('function', *[x for f in FUNS for x in (f, f.lower())]) \
    + L('array', 'CONTAINS_ANY', 'contains_any', 'CONTAINS_ALL', 'contains_all') + L('in', 'IN', 'NOT') + L('not', 'NOT', 'not') + L('unary')
LITERALS = L('literal', 'INTEGER', 'DECIMAL', 'APP_VERSION', 'TRUE', 'true', 'FALSE', 'false', "'", '"', 'FIELD', 'DATE', 'DATETIME', 'empty')
RANGES = L('to', *[a + '-' + b for a in ('INTEGER', 'DECIMAL') for b in ('INTEGER', 'DECIMAL')])
ROOT = dict(kind='root', fallback=dict(tree='leaf'))
UNPARSED = [dict(kind='unparsed', api=a) for a in ('A', 2, 3)]
DELEGATE = [dict(kind='delegate')]
NOFIELD = [dict(kind='nofield', which=w, what=k, op=o, api=a) for w, k, o, a in (('B', 'Field', None, None), ('B', 'Field', None, 2), ('B', 'Boolean', None, 2), ('B', 'Comparison', 'EQUALS', None), ('B', 'Comparison', 'GREATER_THAN', 2), ('A', 'Field', None, None), ('A', 'Arithmetic', 'ADD', None))]
BOOLROOTS = [E('B', 'Boolean', o) for o in ('AND', 'OR', 'NOT')]
# contracts a job is expected to use (others are found while it runs)
BASE = ['getDataType', 'getValueFromMap']
def predicted(j):
    c = j.get('cls')
    if j['kind'] != 'entry': return list(j.get('uses', []))
    if c == 'Comparison': return BASE + ['op_' + j['op']] if j.get('op') else []
    if j['which'] == 'A' and c in ('Range', 'In', 'Array'): return []
    if c == 'Range': return BASE + ['op_GREATER_THAN_EQUAL', 'op_LESS_THAN_EQUAL']
    if c == 'In': return BASE + ['flatten', 'op_IN']
    if c == 'Array': return BASE + ['flatten', 'op_' + j['op']] if j.get('op') else BASE
    if c == 'Function': return ['flatten', 'fn_' + j['op']] if j.get('op') else []
    if c == 'Arithmetic': return ['getDataType', 'ar_' + j['op']] if j.get('op') else []
    if c == 'Field': return ['getValueFromMap']
    return []
def predicted_lemma(n):
    if n in ('op_EQUALS', 'op_NOT_EQUAL'): return ['eq_op'] if n == 'op_EQUALS' else []
    if n.startswith('op_CONTAINS'): return ['in_op', 'eq_op']
    if n in ('op_IN', 'in_op'): return ['eq_op']
    return []
RELS = ('a < b is b > a', 'a <= b is the negation of a > b', 'a >= b is the negation of a < b', 'a != b is the negation of a = b', 'a = b is b = a', 'exactly one of a < b, a = b, a > b')
def plan(pid, thorough=False):
    """-> dict(jobs, lemma_filter, frame, fields)"""
    r = dict(jobs=[], lemma_filter=None)
    if pid == 'C01': r['jobs'] = BOOLROOTS + [E('B', 'Field'), E('B', 'Unary'), E('B', 'Arithmetic'), E('B', 'Function'), E('B', 'Boolean', 'AND', api=2)] + DELEGATE + [dict(kind='notfield', op=o) for o in ('NOT', 'not')]
    elif pid in ('C02', 'C03'):
        r['lemma_filter'] = 'num' if pid == 'C02' else 'notnum'
        r['jobs'] = [E('B', 'Comparison', o, filter=r['lemma_filter']) for o in CMP]
    elif pid == 'C04':
        r['jobs'] = [dict(kind='relation', what=w, lemmas=list(LEMMAS), budget=100, weight=12, fallback=dict(lemmas=[])) for w in RELS] + [E('B', 'Comparison', o) for o in CMP]; r['noprove'] = ('op_',)
    elif pid == 'C05': r['lemma_filter'] = 'rnum'; r['jobs'] = [E('B', 'Range')]
    elif pid == 'C06': r['jobs'] = [E('B', 'In'), E('B', 'Boolean', 'NOT')]
    elif pid == 'C07': r['jobs'] = [E('B', 'Array', o) for o in CONTAINS]
    elif pid in ('C08', 'C09'):
        r['lemma_filter'] = 'num' if pid == 'C08' else 'notnum'
        r['jobs'] = [E('A', 'Arithmetic', o) for o in AOPS] + [E('A', 'Unary'), E('A', 'Field')]
    elif pid in ('C10', 'C11', 'C12'):
        r['jobs'] = [E('A', 'Function', o) for o in {'C10': ('MIN', 'MAX', 'SUM', 'AVG', 'MEAN'), 'C11': ('MEDIAN', 'MODE'), 'C12': ('LEN', 'INT', 'DAYS_ELAPSED')}[pid]]
    elif pid == 'C13':
        f = 'missing'
        r['jobs'] = [E('B', 'Field'), E('A', 'Field')] + [E(w, c, o, filter=f) for w, c, o in (('B', 'Comparison', 'LESS_THAN'), ('B', 'Comparison', 'NOT_EQUAL'), ('B', 'Range', None), ('B', 'In', None), ('B', 'Array', 'CONTAINS_ANY'), ('A', 'Arithmetic', 'ADD'), ('A', 'Arithmetic', 'UNARY'), ('A', 'Function', 'SUM'), ('B', 'Boolean', 'OR'))]
        r['noprove'] = ('op_', 'ar_', 'fn_', 'flatten')
    elif pid == 'C14':
        r['jobs'] = [E('B', 'Comparison', o, filter='nullcheck') for o in CMP]; r['noprove'] = ('op_',)
    elif pid == 'C15':
        t = r['lemma_filter'] = 'errors'
        r['jobs'] = [dict(j, filter=t) for j in BOOLROOTS + [E('B', 'Comparison', o) for o in CMP] + [E('B', 'Range'), E('B', 'In')] + [E('B', 'Array', o) for o in CONTAINS] + [E('B', 'Field'), E('B', 'Unary')]
                     + [E('A', 'Arithmetic', o) for o in AOPS] + [E('A', 'Function', o) for o in FTYPES] + [E('A', 'Field'), E('A', 'Unary')]]
        r['jobs'] += [E('B', 'Arithmetic'), E('B', 'Function')] + [E('A', c) for c in ('Boolean', 'Comparison', 'Range', 'In', 'Array')]
        r['jobs'] += UNPARSED + DELEGATE + NOFIELD + [PARSE(total=1), PARSE(cached=1, total=1)]
    elif pid in ('C16', 'C21'):
        f = 'none'
        r['jobs'] = ([] if pid == 'C16' else [dict(kind=k, what=w) for k in ('construct', 'first') for w in ('BooleanExpressionEvaluator', 'ArithmeticExpressionEvaluator', 'BoolParser', 'CachedBoolParser')] + [PARSE(filter=f), PARSE(cached=1, filter=f)] + UNPARSED) + [dict(j, filter=f) for j in BOOLROOTS + [E('B', 'Comparison', 'EQUALS'), E('B', 'Range'), E('B', 'In'), E('B', 'Array', 'CONTAINS_ANY'), E('B', 'Field'), E('B', 'Unary'), E('A', 'Field'), E('A', 'Unary')]
                     + [E('A', 'Arithmetic', o) for o in ('ADD', 'UNARY')] + [E('A', 'Function', 'SUM'), E('A', 'Function', 'LEN')]]
        r['frame'] = 'hard' if pid == 'C16' else 'any'
        r['lemma_filter'] = 'none'; r['noprove'] = ('',); r['extra_lemmas'] = list(LEMMAS)
    elif pid == 'C17': r['jobs'] = LITERALS + RANGES + [E('A', 'Unary')]
    elif pid == 'C18': r['jobs'] = OPERATORS + L('parent') + LITERALS + RANGES + [ROOT, PARSE()]
    elif pid == 'C19': r['jobs'] = [PARSE(cached=1), PARSE()] + ([PARSE(cached=1, requests=3, shapes=3, budget=400)] if thorough else [])
    elif pid == 'C20': r['jobs'] = OPERATORS + L('literal', 'TRUE', 'true', 'FALSE', 'false') + RANGES[:1]
    if pid in ('C10', 'C11', 'C15'): r['jobs'].append(dict(kind='ghost'))
    if pid in ('C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C13', 'C14'): r['jobs'] += DELEGATE
    if pid in ('C17', 'C18', 'C19', 'C20'): r['jobs'].append(dict(kind='recog', what='lexer'))
    if pid in ('C15', 'C18', 'C20'): r['jobs'].append(dict(kind='recog', what='parser'))
    for j in r['jobs']: j['name'] = name(j)
    return r
