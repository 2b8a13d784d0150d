TRUSTED = ['z3', 'javac (bytecode from the current source) and ASM (reading it)', 'engine/ (symbolic execution of the bytecode, path splitting, the models of library classes)']
ASSUMPTIONS = ['data holds values of the kinds of vals.KINDS: null only as a map value, no null inside collections, no object that changes while it is evaluated',
               'stack and memory suffice', 'a tree is finite (structural induction over nodes), its fields are what the constructors and the listener put there (C17, C18)',
               'machine arithmetic is not treated as mathematical: int and long wrap; a Float or Double is the decimal number Java prints for it (Double.toString and BigDecimal.valueOf by contract)']
GRAMMAR = ['ANTLR\'s runtime by contract: LexerATNSimulator runs the lexer\'s transition network as documented (longest match, first rule, non-greedy loops); adaptivePredict answers with the least of the alternatives with which the rest of the tokens can be parsed; Parser.match, consume, enterRule, pushNewRecursionContext and their like build the tree as documented; the tree walker calls enter and exit of every rule, children first, left to right (the generated lexer\'s network and the generated parser\'s rule methods themselves are under contract: C15, C17, C18, C20)',
           'sub-expressions that a listener method takes its operands from are arbitrary parse trees whose own exit methods were run before (induction); where the listener is not a function of its operands the check falls back to sub-expressions that are one word or literal, and says bounded']
EXTRA = {p: GRAMMAR for p in ('C17', 'C18', 'C19', 'C20')}
EXTRA['C01'] = GRAMMAR[:1]
EXTRA['C15'] = GRAMMAR + ['an exception ANTLR throws while it lexes or parses is an unchecked exception']
EXTRA['C19'] = GRAMMAR + ['Caffeine: a bounded map that may lose any entry at any time; get(key, f) returns what f returned for an equal key or calls f; getIfPresent/put as a map',
                          'two requests stand for every history when the parser keeps no state but the cache and one key per request is looked at (checked on the run: otherwise the result is labelled bounded)']
EXTRA['C21'] = ['an execution that writes no object that existed before it, other than objects of java.util.concurrent, Caffeine or under a lock, is not affected by, and does not affect, executions beside it (data-race freedom, JLS 17.4.5)',
                'the registries are EnumMaps: put writes one array slot with a value of the same class, so a reader beside a second constructor sees the old or the new evaluator, which answer alike; final fields and the static initialisers publish them safely',
                'Caffeine and vavr are thread-safe; the ANTLR runtime shares its prediction caches between parsers safely']
GHOST = ['the sum, minimum, maximum, counts and order statistics of a list are ghost functions defined by recursion (order statistics: an ascending permutation); what is used of them beyond that is proved by induction on every run; that induction over the natural numbers and over the index of a loop is sound is taken as known']
for p in ('C10', 'C11', 'C15'): EXTRA[p] = EXTRA.get(p, []) + GHOST
EXTRA['C13'] = ['a name that is dots only names no field: whether it counts as missing or fails is left open']
EXTRA['C11'] = EXTRA['C11'] + ['java.util.Arrays/Stream.sorted order by the natural order of the elements (contract)']
EXTRA['C12'] = ['the clock: LocalDate.now is one arbitrary date during an evaluation']
