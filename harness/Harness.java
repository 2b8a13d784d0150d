import java.io.*;
import java.math.*;
import java.nio.file.*;
import java.time.*;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
import org.apache.maven.artifact.versioning.ComparableVersion;
import com.github.sidhant92.boolparser.application.*;
import com.github.sidhant92.boolparser.parser.*;
import com.github.sidhant92.boolparser.parser.antlr.*;
import com.github.sidhant92.boolparser.domain.*;
import com.github.sidhant92.boolparser.domain.logical.*;
import com.github.sidhant92.boolparser.domain.arithmetic.*;
import io.vavr.control.Try;

/** Runs the real library next to the reference semantics. Usage: Harness PROPERTY SEED SECONDS HINTS REPLAYFILE | Harness replay FILE */
public class Harness extends Ref {
    static class Bad extends RuntimeException { final List<String> lines; Bad(String... l) { super(l[0]); lines = List.of(l); } }
    static long cases = 0, compared = 0, deadline; static Random R; static PrintStream out = System.out;
    static boolean late() { return System.nanoTime() > deadline; }

    // ------------------------------------------------------------------ the library
    static BoolParser parser = new BoolParser();
    static BooleanExpressionEvaluator BEV = new BooleanExpressionEvaluator(parser);
    static ArithmeticExpressionEvaluator AEV = new ArithmeticExpressionEvaluator(parser);
    static String ltree(Object n) {
        if (n == null) return "null";
        if (n instanceof ComparisonNode c) return "(" + ltree(c.getLeft()) + " " + c.getOperator() + " " + ltree(c.getRight()) + ")";
        if (n instanceof BooleanNode c) { if (c.getOperator().name().equals("NOT")) return "[NOT " + (c.getLeft() instanceof UnaryNode u && u.getDataType().name().equals("STRING") ? "~" + u.getValue() : c.getLeft() instanceof FieldNode f ? "~" + f.getField() : ltree(c.getLeft())) + "]";
            return "[" + ltree(c.getLeft()) + " " + c.getOperator() + " " + ltree(c.getRight()) + "]"; }
        if (n instanceof ArithmeticNode c) return c.getOperator().name().equals("UNARY") ? "{- " + ltree(c.getLeft()) + "}" : "{" + ltree(c.getLeft()) + " " + c.getOperator() + " " + ltree(c.getRight()) + "}";
        if (n instanceof ArithmeticFunctionNode c) return c.getFunctionType() + ltrees(c.getItems());
        if (n instanceof InNode c) return c.getField() + " IN" + ltrees(c.getItems());
        if (n instanceof ArrayNode c) return c.getField() + " " + c.getOperator() + ltrees(c.getItems());
        if (n instanceof NumericRangeNode c) return c.getField() + " " + c.getFromDataType() + ":" + Val.show(c.getFromValue()) + ".." + c.getToDataType() + ":" + Val.show(c.getToValue());
        if (n instanceof FieldNode c) return "$" + c.getField();
        if (n instanceof UnaryNode c) return c.getDataType() + ":" + Val.show(c.getValue());
        return "?" + n;
    }
    static String ltrees(List<? extends Object> l) { return "<" + l.stream().map(Harness::ltree).collect(Collectors.joining(",")) + ">"; }
    static String rtree(E e) { return Ref.tree(e).replaceAll("\\[NOT \\$", "[NOT ~").replaceAll("\\[NOT STRING:\"([^\"\\\\]*)\"\\]", "[NOT ~$1]"); }
    static String ptree(BoolExpressionParser p, String x, String dflt, boolean one) {
        Try<Node> t;
        try { t = one ? p.parseExpression(x) : p.parseExpression(x, dflt); } catch (Throwable e) { return "threw " + e; }
        if (t == null) return "null";
        return t.isSuccess() ? (t.get() == null ? "null" : ltree(t.get())) : "FAILURE";
    }
    record Out(String kind, Object v, String msg) { public String toString() { return kind.equals("ok") ? Val.show(v) : kind + (msg == null ? "" : " " + msg); } }
    static Out run(Supplier<Try<?>> s) {
        Try<?> t;
        try { t = s.get(); } catch (Throwable e) { return new Out("threw", null, e.toString()); }
        if (t == null) return new Out("threw", null, "null instead of a Try");
        if (t.isFailure()) return new Out("fail", null, String.valueOf(t.getCause()).split("\n")[0]);
        return t.get() == null ? new Out("threw", null, "a Success of null") : new Out("ok", t.get(), null);
    }
    static Out lib(char which, String text, Map<String, Object> d, String dflt) { boolean two = dflt == null && (cases & 1) == 0; return run(() -> which == 'B' ? two ? BEV.evaluate(text, d) : BEV.evaluate(text, d, dflt) : AEV.evaluate(text, d)); }

    static void bad(char which, String text, String dflt, Map<String, Object> d, String want, Object got) {
        throw new Bad("expression evaluated by the library differs from the property", "evaluator=" + (which == 'B' ? "boolean" : "arithmetic"), "expression=" + Val.q(text), "default=" + (dflt == null ? "null" : Val.q(dflt)), "data=" + Val.show(d), "required=" + want, "observed=" + got);
    }
    /** what the property says of the outcome: null if it is met or left open, else what is required */
    static String verdict(char which, E e, Map<String, Object> d, Out o) {
        if (o.kind.equals("threw")) return "a Success or a Failure";
        LocalDate day = LocalDate.now();
        try {
            if (which == 'B') {
                boolean b;
                try { b = evalB(e, d); } catch (LenientB l) { if (!(e instanceof Arr || e instanceof Rng)) return null; compared++; return o.kind.equals("fail") || o.v.equals(l.b) ? null : l.b + " or a Failure"; }
                compared++;
                return o.kind.equals("ok") && o.v.equals(b) ? null : "" + b;
            }
            Res r = evalA(e, d);
            compared++;
            return o.kind.equals("ok") && r.holds(o.v) ? null : r.toString();
        } catch (Fail f) { compared++; return o.kind.equals("fail") ? null : "a Failure (" + f.getMessage() + ")"; }
        catch (Unspec | LenientB u) { return null; }
        finally { if (!LocalDate.now().equals(day)) return null; }
    }
    static void check(char which, E e, Map<String, Object> d) { check(which, e, text(e), d); }
    static void check(char which, E e, String text, Map<String, Object> d) {
        cases++;
        Out o = lib(which, text, d, null);
        String w = verdict(which, e, d, o);
        if (w != null) bad(which, text, null, d, w, o);
    }

    // ------------------------------------------------------------------ values
    static List<Object> NUMS = new ArrayList<>(), OTHER = new ArrayList<>(), SMALL = new ArrayList<>(); static List<Lit> LITS = new ArrayList<>();
    static BigDecimal bd(String s) { return new BigDecimal(s); }
    static void pools(List<Object> hints) {
        NUMS.addAll(Arrays.asList(0, 1, -1, 2, 3, 5, 7, -7, 10, 100, 65536, Integer.MAX_VALUE, Integer.MIN_VALUE, 2147483646,
            0L, 1L, 5L, -3L, 2147483647L, 2147483648L, -2147483649L, 4294967296L, 4294967301L, 3037000500L, Long.MAX_VALUE, Long.MAX_VALUE - 1, Long.MIN_VALUE, Long.MIN_VALUE + 1, 9007199254740993L, 9007199254740992L,
            0.1f, 1.5f, 5f, -2.5f, 16777216f, 1e10f, 0.3f, 0.1, 0.2, 0.3, 1.5, 5.0, -2.5, -0.0, 2147483647.0, 2147483648.0, 9.007199254740992E15, 1e20, 1.0E-7, 123456.789, 2.0000000001,
            bd("0"), bd("0.00"), bd("0.1"), bd("0.10"), bd("1.5"), bd("1.50"), bd("5.00"), bd("1E+1"), bd("-0.001"), bd("2.9999"), bd("0.3"), bd("9007199254740993"), bd("9223372036854775807"), bd("9223372036854775808"), bd("-9223372036854775809"), bd("2147483648"), bd("123456789012345678901234567890.123456789"), bd("0.12345678901234567890123"), bd("9007199254740993.5"), bd("2.0005"), bd("1.0E-10")));
        OTHER.addAll(Arrays.asList(true, false, "", "abc", "ABC", "Abc", "abd", "ab", "z", "5", "5.0", "10", "9", "-1", "1.5", "1.50", "1.0.0", "1.0", "1.2", "1.10", "1.9.9", "true", "TRUE", "false", "null", "NaN", " ", "a b", "x=1", "2024-01-01", "2024-01-02", "2023-12-31", "2024-02-30", "2024-2-1", "2024-01-01 10:00:00", "2024-01-01 09:59:59", "2024-01-01 25:00:00", "2024-01-01 00:00:00", "2147483648", "9223372036854775808", "1e3", "0x10", " 5", "\u0130", "i", "\u00e9", "\ud83d\ude00",
            new ComparableVersion("1.0.0"), new ComparableVersion("1.0"), new ComparableVersion("1"), new ComparableVersion("1.10.0"), new ComparableVersion("1.9.9"), new ComparableVersion("2.0.0-alpha"), new ComparableVersion("5"), new ComparableVersion("1.0.1"),
            LocalDate.of(2024, 1, 1), LocalDate.of(2024, 1, 2), LocalDate.of(1999, 12, 31), LocalDate.of(2030, 6, 1), LocalDate.of(12020, 1, 1), LocalDate.of(-5, 3, 1), LocalDateTime.of(12020, 1, 1, 0, 0, 0), LocalDateTime.of(2024, 1, 1, 10, 0, 0), LocalDateTime.of(2024, 1, 1, 0, 0, 0), LocalDateTime.of(2024, 1, 1, 10, 0, 0, 500),
            Double.NaN, Double.POSITIVE_INFINITY, Float.NaN, Float.NEGATIVE_INFINITY, 'c', '5', new BigInteger("5"), new BigInteger("123456789012345678901234567890"), (short) 5, (byte) 1,
            new ArrayList<>(), new ArrayList<>(List.of(1)), new ArrayList<>(List.of(1, 2, 3)), new ArrayList<>(List.of("a", "b")), new ArrayList<>(List.of(5, 5L, 5.0, bd("5.00"))), new LinkedHashSet<>(List.of(1, 2)), new Object[] {1, 2}, new HashMap<>(Map.of("x", 1))));
        SMALL.addAll(Arrays.asList(0, 1, 2, 3, 5, -1, 5L, 2L, 2147483648L, 5.0, 1.5, 0.1, 1.5f, 0.1f, bd("5.00"), bd("1.50"), bd("0.1"), bd("2"), "5", "a", "abc", "ABC", "true", true, false, "2024-01-01", LocalDate.of(2024, 1, 1), new ComparableVersion("1.0.0"), "1.0.0", Double.NaN));
        for (Object h : hints) { String t = dt(h); if (isNum(h)) { NUMS.add(h); SMALL.add(h); } else { OTHER.add(h); SMALL.add(h); } }
        for (String s : new String[] {"0", "1", "2", "3", "5", "7", "10", "100", "2147483647", "2147483648", "4294967296", "9223372036854775807", "0.1", "1.5", "1.50", "0.3", "5.0", "2.5", "2.0005", "9007199254740993.0", "9223372036854775808.0", "1.0.0", "1.9.9", "1.10.0", "2.0.0", "true", "false", "TRUE", "'abc'", "\"ABC\"", "''", "'5'", "'a b'", "'true'", "'1.0.0'", "'2024-01-01'", "'null'", "2024-01-01", "2024-01-02", "2024-01-01 10:00:00", "'2024-01-01 10:00:00'"}) LITS.add(lit(s));
    }
    // ---- constants of the code under test: lengths, numbers, texts and names around them
    static List<Long> MI = new ArrayList<>(); static List<String> MS = new ArrayList<>();
    static final Set<String> WORDS = Set.of("and", "or", "not", "in", "to", "true", "false", "min", "max", "sum", "avg", "mean", "mode", "median", "len", "int", "days_elapsed", "contains_any", "contains_all");
    static void mined(String file) throws IOException {
        for (String l : Files.readAllLines(Path.of(file))) try { Object v = Val.read(l); if (v instanceof String t) MS.add(t); else if (v instanceof Integer || v instanceof Long) { long x = ((Number) v).longValue(); for (long y : new long[] {x - 1, x, x + 1, -x}) if (!MI.contains(y)) MI.add(y); } else { NUMS.add(v); } } catch (RuntimeException e) { }
        for (long x : MI) if (x < -10 || x > 10) { if (x == (int) x) NUMS.add((int) x); NUMS.add(x); NUMS.add(new BigDecimal(x)); if (x > 0 && x < 60) NUMS.add(new BigDecimal(BigInteger.valueOf(15), (int) x)); if (x >= 0) LITS.add(lit("" + x)); if (x > 1000 && x < 9999) { OTHER.add(LocalDate.of((int) x, 7, 1)); OTHER.add(x + "-07-01"); } }
        for (String t : MS) { if (t.matches("[-.+_]?\\w{1,12}")) { QUALS.add(t); QUALS.add("-" + t); } OTHER.add(t); if (t.matches("[\\w. :=+-]*")) { OTHER.add("x" + t); OTHER.add(t + "y"); if (!t.contains("'")) LITS.add(lit("'" + t + "'")); } if (t.matches("[A-Za-z_][A-Za-z_0-9]*") && !WORDS.contains(t.toLowerCase(Locale.ROOT))) { NAMES.add(t); MNAMES.add(t); } }
    }
    static List<String> QUALS = new ArrayList<>(List.of("", "-alpha", "-beta", "-rc1", "-SNAPSHOT", "-sp", "-ga", "-final", "-1", ".0", ".0.0", ".0.1", "a", "-x"));
    static List<String> MNAMES = new ArrayList<>();
    /** a length: mostly below n, now and then long or at a constant of the code */
    static int len(int n) {
        int k = R.nextInt(60);
        if (k < 54 || late()) return R.nextInt(n);
        if (k < 57) return R.nextInt(30);
        if (k == 57) return R.nextInt(130);
        List<Long> c = MI.stream().filter(x -> x >= 0 && x <= 300).toList(); return c.isEmpty() ? R.nextInt(n) : (int) (long) pick(c);
    }
    static <T> T pick(List<T> l) { return l.get(R.nextInt(l.size())); }
    static Object anyVal() { int k = R.nextInt(10); return k < 4 ? pick(NUMS) : k < 7 ? pick(SMALL) : pick(OTHER); }
    static Object num() { return R.nextInt(4) == 0 ? rndNum() : pick(NUMS); }
    static Object rndNum() {
        switch (R.nextInt(6)) {
            case 0: return R.nextInt(20) - 10;
            case 1: return R.nextLong() >> R.nextInt(64);
            case 2: return (double) (R.nextInt(4000) - 2000) / (double) (1 << R.nextInt(5));
            case 3: return (float) (R.nextInt(4000) - 2000) / 10f;
            case 4: return new BigDecimal(BigInteger.valueOf(R.nextLong() >> R.nextInt(64)), R.nextInt(20) - 2);
            default: return R.nextDouble() * Math.pow(10, R.nextInt(30) - 10);
        }
    }
    static Object coll() {
        int n = len(5); List<Object> l = new ArrayList<>(); int k = R.nextInt(4);
        for (int i = 0; i < n; i++) l.add(k == 0 ? num() : k == 1 ? pick(List.of("a", "b", "c", "5", "A")) : k == 2 ? R.nextInt(4) : pick(SMALL));
        switch (R.nextInt(5)) { case 0: return l.toArray(); case 1: return new LinkedHashSet<>(l); case 2: return new ArrayDeque<>(l); default: return l; }
    }
    static E fld(String n) { return new Fld(n); }
    static Map<String, Object> map(Object... kv) { Map<String, Object> m = new LinkedHashMap<>(); for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]); return m; }

    // ------------------------------------------------------------------ random expressions
    static final List<String> NAMES = new ArrayList<>(List.of("a", "b", "c", "d", "t", "f", "l", "k", "m.x", "m.n.y", "m", "missing", "m.zz", "null", "a.b", "m.null", "nulls"));
    static Map<String, Object> data() {
        Map<String, Object> m = new HashMap<>();
        m.put("a", anyVal()); m.put("b", num()); m.put("c", pick(SMALL)); m.put("d", anyVal()); m.put("t", true); m.put("f", false); m.put("l", coll()); m.put("k", coll());
        Map<String, Object> n = map("y", anyVal()); m.put("m", map("x", R.nextBoolean() ? (Object) R.nextBoolean() : anyVal(), "n", n));
        if (R.nextInt(6) == 0) m.put("null", anyVal());
        if (R.nextInt(6) == 0) m.put("b", null);
        if (!MNAMES.isEmpty() && R.nextInt(2) == 0) m.put(pick(MNAMES), anyVal());
        return m;
    }
    static E name() { return fld(pick(NAMES)); }
    static E lit() { return pick(LITS); }
    static E arith(int d) {
        int k = R.nextInt(d <= 0 ? 3 : 9);
        if (k < 1) return name(); if (k == 1) return fld("b"); if (k == 2) return lit();
        if (k < 6) return new Bin(pick(List.of("+", "-", "*", "/", "%", "^", "+", "-", "*")), arith(d - 1), arith(d - 1));
        if (k == 6) return new Un("UNARY", arith(d - 1));
        return new Fn(pick(List.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED")), list(d - 1));
    }
    static List<E> list(int d) { List<E> l = new ArrayList<>(); int n = 1 + len(4); for (int i = 0; i < n; i++) l.add(R.nextInt(6) == 0 ? fld("l") : arith(d)); return l; }
    static E bool(int d) {
        int k = R.nextInt(d <= 0 ? 7 : 13);
        switch (k) {
            case 0: return fld(pick(List.of("t", "f", "m.x", "missing", "a")));
            case 1: return lit(pick(List.of("true", "false", "TRUE", "FALSE")));
            case 2: case 3: return new Bin(pick(List.of("=", "!=", ">", ">=", "<", "<=")), arith(Math.min(d, 1)), arith(Math.min(d, 1)));
            case 4: return new In(pick(NAMES), R.nextBoolean(), list(0));
            case 5: return new Arr(pick(List.of("l", "k", "a", "missing")), pick(List.of("CONTAINS_ANY", "CONTAINS_ALL")), list(0));
            case 6: return new Rng(pick(NAMES), numLit(), numLit());
            case 7: case 8: case 9: return new Bin("AND", bool(d - 1), bool(d - 1));
            case 10: case 11: return new Bin("OR", bool(d - 1), bool(d - 1));
            default: return new Un("NOT", bool(d - 1));
        }
    }
    static Lit numLit() { while (true) { Lit l = pick(LITS); if (Set.of("INTEGER", "LONG", "DECIMAL").contains(l.dt())) return l; } }

    // ------------------------------------------------------------------ the properties
    static void random(Supplier<E> gen, char which) { while (!late()) { Map<String, Object> d = data(); E e = gen.get(); check(which, e, d); } }
    static void C01() {
        List<E> leaf = new ArrayList<>(List.of(fld("t"), fld("f"), fld("missing"), fld("n"), lit("true"), lit("false"), fld("m.x"), new Bin("=", fld("n"), lit("1")), new Bin(">", fld("n"), lit("'x'")), new Bin("+", fld("n"), lit("1")), fld("nul"), fld("s"), new Bin("<", fld("n"), lit("0")), new Fn("MIN", List.of(fld("n")))));
        Map<String, Object> d = map("t", true, "f", false, "n", 1, "m", map("x", true), "nul", null, "s", "true");
        List<E> l1 = new ArrayList<>(leaf);
        for (E e : leaf) l1.add(new Un("NOT", e));
        for (E a : leaf) for (E b : leaf) for (String o : List.of("AND", "OR")) l1.add(new Bin(o, a, b));
        for (E e : l1) { check('B', e, d); check('B', new Un("NOT", e), d); }
        List<E> few = List.of(fld("t"), fld("f"), fld("missing"), new Bin("=", fld("n"), lit("1")));
        for (E a : l1) for (E b : few) for (String o : List.of("AND", "OR")) { if (late()) return; check('B', new Bin(o, a, b), d); check('B', new Bin(o, b, a), d); }
        random(() -> bool(2 + R.nextInt(3)), 'B');
    }
    static final List<String> OPS = List.of("=", "!=", ">", ">=", "<", "<=");
    static void cmpPairs(List<Object> ls, List<Object> rs, Predicate<Object[]> want) {
        List<int[]> idx = new ArrayList<>(); for (int i = 0; i < ls.size(); i++) for (int j = 0; j < rs.size(); j++) idx.add(new int[] {i, j});
        Collections.shuffle(idx, R);
        for (int[] ij : idx) { Object l = ls.get(ij[0]), r = rs.get(ij[1]); if (!want.test(new Object[] {l, r})) continue; for (String op : OPS) check('B', new Bin(op, fld("a"), fld("b")), map("a", l, "b", r)); }
    }
    static void cmpLits(List<Object> ls, Predicate<Object[]> want) {
        for (Object l : ls) for (Lit r : LITS) { if (!want.test(new Object[] {l, r.v()})) continue; for (String op : OPS) { check('B', new Bin(op, fld("a"), r), map("a", l)); check('B', new Bin(op, r, fld("a")), map("a", l)); } }
        for (Lit l : LITS) for (Lit r : LITS) if (want.test(new Object[] {l.v(), r.v()})) for (String op : OPS) check('B', new Bin(op, l, r), map());
    }
    static boolean bothNum(Object[] p) { return isNum(p[0]) && isNum(p[1]); }
    static void C02() {
        cmpLits(NUMS, Harness::bothNum); cmpPairs(NUMS, NUMS, Harness::bothNum);
        while (!late()) {
            Object l = num(), r = R.nextInt(3) == 0 ? same(l) : num();
            for (String op : OPS) { check('B', new Bin(op, fld("a"), fld("b")), map("a", l, "b", r)); }
            check('B', new Bin(pick(OPS), arithNum(2), arithNum(2)), map("a", l, "b", r));
        }
    }
    static E arithNum(int d) { int k = R.nextInt(d <= 0 ? 3 : 6); return k == 0 ? fld("a") : k == 1 ? fld("b") : k == 2 ? numLit() : k == 3 ? new Un("UNARY", arithNum(d - 1)) : new Bin(pick(List.of("+", "-", "*", "/")), arithNum(d - 1), arithNum(d - 1)); }
    /** a number of the same value in another form, or a close one */
    static Object same(Object v) {
        BigDecimal b = nm(v); if (b == null) return v;
        switch (R.nextInt(6)) {
            case 0: return b; case 1: return b.setScale(Math.max(0, b.scale()) + 3);
            case 2: return whole(b) && inLong(b) ? (Object) b.longValueExact() : b; case 3: return b.doubleValue(); case 4: return b.floatValue();
            default: return b.add(new BigDecimal(BigInteger.ONE, Math.max(0, b.scale()) + R.nextInt(2)));
        }
    }
    static void C03() {
        List<Object> all = new ArrayList<>(OTHER); all.addAll(SMALL);
        Predicate<Object[]> w = p -> !bothNum(p);
        for (int i = 0; i < 1500; i++) c03();
        cmpLits(all, w); cmpPairs(all, all, w);
        while (!late()) c03();
    }
    static void c03() {
            String s = rndStr(), t = R.nextInt(3) == 0 ? s : rndStr();
            for (String op : OPS) check('B', new Bin(op, fld("a"), fld("b")), map("a", s, "b", t));
            if (R.nextInt(3) == 0) { String p = rndStr(); int n = len(4); StringBuilder b = new StringBuilder(); for (int i = 0; i < n; i++) b.append("aB1".charAt(R.nextInt(3))); String u = p + b, u2 = p + (R.nextBoolean() ? b.toString().toUpperCase(Locale.ROOT) : b + rndStr()); for (String op : OPS) check('B', new Bin(op, fld("a"), fld("b")), map("a", u, "b", u2)); }
            String v = rndVer(), w2 = R.nextInt(3) == 0 ? v.replaceAll("-.*", "") + pick(QUALS) : rndVer();
            for (String op : OPS) { check('B', new Bin(op, fld("a"), fld("b")), map("a", R.nextBoolean() ? v : new ComparableVersion(v), "b", new ComparableVersion(w2))); check('B', new Bin(op, fld("a"), fld("b")), map("b", v, "a", new ComparableVersion(w2))); }
            LocalDate d = rndDate(), e = R.nextInt(20) == 0 ? d.plusYears(R.nextInt(40000) - 20000) : d.plusDays(R.nextInt(5) - 2);
            for (String op : OPS) check('B', new Bin(op, fld("a"), fld("b")), map("a", R.nextBoolean() ? d : d.toString(), "b", R.nextBoolean() || e.toString().length() != 10 ? e : e.toString()));
        }
    static LocalDate rndDate() { return R.nextBoolean() ? LocalDate.ofEpochDay(R.nextInt(40000) - 10000) : LocalDate.of(1001 + R.nextInt(8990), 1, 1).plusDays(R.nextInt(366)); }
    static String rndStr() { StringBuilder b = new StringBuilder(); int n = len(4); for (int i = 0; i < n; i++) b.append("aAbB1.- é\u0131".charAt(R.nextInt(10))); return b.toString(); }
    static String rndVer() { StringBuilder b = new StringBuilder("" + R.nextInt(12)); int n = len(4); for (int i = 0; i < n; i++) b.append(".").append(R.nextInt(12)); if (R.nextInt(5) == 0) b.append("-").append(pick(List.of("alpha", "beta", "rc1", "SNAPSHOT"))); return b.toString(); }
    static void C04() {
        List<Object> all = new ArrayList<>(NUMS); all.addAll(OTHER);
        List<int[]> idx = new ArrayList<>(); for (int i = 0; i < all.size(); i++) for (int j = 0; j < all.size(); j++) idx.add(new int[] {i, j}); Collections.shuffle(idx, R);
        Iterator<int[]> it = idx.iterator();
        while (it.hasNext() || !late()) {
            Object l, r; if (it.hasNext()) { int[] ij = it.next(); l = all.get(ij[0]); r = all.get(ij[1]); } else { l = num(); r = R.nextBoolean() ? same(l) : num(); }
            if (late() && cases > 20000) return;
            Map<String, Object> d = map("a", l, "b", r); Map<String, Out> o = new HashMap<>();
            for (String op : OPS) { o.put(op, lib('B', "a " + op + " b", d, null)); o.put("~" + op, lib('B', "b " + op + " a", d, null)); cases += 2; }
            rel(d, o, "<", "~>", false); rel(d, o, ">", "~<", false); rel(d, o, "<=", "~>=", false); rel(d, o, "<=", ">", true); rel(d, o, ">=", "<", true); rel(d, o, "=", "!=", true); rel(d, o, "=", "~=", false); rel(d, o, "!=", "~!=", false);
            compared++;
            if (dt(l).equals(dt(r)) && Stream.of("<", "=", ">").allMatch(x -> o.get(x).kind.equals("ok"))) {
                long n = Stream.of("<", "=", ">").filter(x -> o.get(x).v.equals(true)).count();
                if (n != 1) bad('B', "a < b; a = b; a > b", null, d, "exactly one of <, =, > holds", o.get("<") + ", " + o.get("=") + ", " + o.get(">"));
            }
        }
    }
    static void rel(Map<String, Object> d, Map<String, Out> o, String x, String y, boolean neg) {
        Out a = o.get(x), b = o.get(y);
        if (a.kind.equals("ok") && b.kind.equals("ok") && a.v.equals(b.v) == neg) bad('B', pr(x) + "; " + pr(y), null, d, neg ? "opposite results" : "equal results", a + ", " + b);
        // one of the two fails and the other one does not, where only the operands' own validity is at issue: left open
    }
    static String pr(String x) { return x.startsWith("~") ? "b " + x.substring(1) + " a" : "a " + x + " b"; }
    static void C05() {
        List<Lit> nl = LITS.stream().filter(l -> Set.of("INTEGER", "LONG", "DECIMAL").contains(l.dt())).collect(Collectors.toList());
        List<Object> vs = new ArrayList<>(NUMS); vs.addAll(OTHER);
        for (Object v : vs) for (Lit a : nl) for (Lit b : nl) { if (R.nextInt(3) > 0 && !(a.text().length() < 3 && b.text().length() < 3)) continue; check('B', new Rng("a", a, b), map("a", v)); }
        check('B', new Rng("zz", nl.get(0), nl.get(1)), map("a", 1)); check('B', new Rng("a.b", nl.get(0), nl.get(5)), map("a", map("b", 3))); check('B', new Rng("a", nl.get(0), nl.get(1)), map("a", null));
        while (!late()) { Lit a = R.nextBoolean() ? pick(nl) : lit("" + R.nextInt(2000)), b = R.nextBoolean() ? pick(nl) : lit(R.nextInt(2000) + "." + R.nextInt(1000)); check('B', new Rng("a", a, b), map("a", R.nextInt(4) == 0 ? anyVal() : R.nextBoolean() ? same(R.nextBoolean() ? a.v() : b.v()) : rndNum())); }
    }
    static void C06() {
        List<Object> vs = new ArrayList<>(NUMS); vs.addAll(OTHER);
        for (Object v : vs) for (Lit l : LITS) for (boolean n : new boolean[] {false, true}) { check('B', new In("a", n, List.of(l)), map("a", v)); }
        for (Object v : SMALL) for (Object w : SMALL) for (boolean n : new boolean[] {false, true}) { check('B', new In("a", n, List.of(fld("b"))), map("a", v, "b", w)); check('B', new In("a", n, List.of(lit("7"), fld("b"))), map("a", v, "b", w)); check('B', new In("a", n, List.of(fld("b"), lit("7"))), map("a", v, "b", w)); check('B', new In("a", n, List.of(fld("b"))), map("a", v, "b", new ArrayList<>(List.of(7, w)))); }
        while (!late()) {
            Map<String, Object> d = data(); Object v = pick(SMALL); d.put("a", R.nextBoolean() ? v : num());
            List<E> es = new ArrayList<>(); int n = 1 + len(4); for (int i = 0; i < n; i++) { int k = R.nextInt(8); es.add(k < 2 ? lit() : k == 2 ? fld("l") : k == 3 ? arith(1) : k == 4 ? bool(0) : k == 5 ? name() : fld("e" + i)); d.put("e" + i, R.nextInt(3) == 0 ? same(d.get("a")) : pick(SMALL)); }
            check('B', new In("a", R.nextBoolean(), es), d);
        }
    }
    static void C07() {
        List<Object> few = List.of(1, 2L, 1.0, bd("1.00"), "a", "b", "1", true, LocalDate.of(2024, 1, 1), "2024-01-01");
        List<Lit> fl = Stream.of("1", "2", "'a'", "'b'", "'1'", "1.0", "true", "2024-01-01", "2147483648").map(Ref::lit).collect(Collectors.toList());
        List<Object> cs = new ArrayList<>(); cs.add(new ArrayList<>()); for (Object x : few) { cs.add(new ArrayList<>(List.of(x))); cs.add(new Object[] {x}); for (Object y : few) if (!x.equals(y)) { cs.add(new ArrayList<>(List.of(x, y))); cs.add(new LinkedHashSet<>(List.of(x, y))); } }
        for (String op : List.of("CONTAINS_ANY", "CONTAINS_ALL")) {
            for (Object c : cs) { for (Lit a : fl) { check('B', new Arr("c", op, List.of(a)), map("c", c)); if (R.nextInt(3) == 0) for (Lit b : fl) check('B', new Arr("c", op, List.of(a, b)), map("c", c)); } for (Object o : cs) if (R.nextInt(20) == 0) check('B', new Arr("c", op, List.of(fld("o"))), map("c", c, "o", o)); }
            for (Object v : SMALL) check('B', new Arr("c", op, List.of(lit("1"))), map("c", v));
            check('B', new Arr("zz", op, List.of(lit("1"))), map()); check('B', new Arr("c", op, List.of(fld("zz"))), map("c", cs.get(1)));
            check('B', new Arr("m.c", op, List.of(lit("1"))), map("m", map("c", cs.get(1))));
        }
        while (!late()) {
            Map<String, Object> d = data(); List<E> es = new ArrayList<>(); int n = 1 + len(4), k = R.nextInt(5); if (k == 4) { List<Object> l = new ArrayList<>(); int q = 1 + len(12); for (int i = 0; i < q; i++) l.add(i); Collections.shuffle(l, R); d.put("l", R.nextBoolean() ? l : new LinkedHashSet<>(l)); int w = 1 + len(6); for (int i = 0; i < w; i++) { d.put("e" + i, R.nextInt(8) == 0 ? R.nextInt(q + 2) : R.nextInt(q)); es.add(fld("e" + i)); } check('B', new Arr("l", pick(List.of("CONTAINS_ANY", "CONTAINS_ALL")), es), d); check('B', new In("e0", R.nextBoolean(), List.of(fld("l"))), d); continue; }
            for (int i = 0; i < n; i++) { String f = "e" + i; d.put(f, k == 0 ? pick(SMALL) : k == 1 ? R.nextInt(4) : k == 2 ? pick(List.of("a", "b", "c", "A")) : same(R.nextInt(3))); es.add(R.nextInt(8) == 0 ? (R.nextBoolean() ? fld("k") : arith(1)) : fld(f)); }
            check('B', new Arr("l", pick(List.of("CONTAINS_ANY", "CONTAINS_ALL")), es), d);
        }
    }
    static final List<String> AOPS = List.of("+", "-", "*", "/", "%", "^");
    static void arithPairs(List<Object> ls, List<Object> rs, Predicate<Object[]> want) {
        for (Object l : ls) { check('A', new Un("UNARY", fld("a")), map("a", l)); for (Object r : rs) { if (!want.test(new Object[] {l, r})) continue; for (String op : AOPS) check('A', new Bin(op, fld("a"), fld("b")), map("a", l, "b", r)); } }
    }
    static void C08() {
        arithPairs(NUMS, NUMS, p -> true);
        for (Lit l : LITS) for (Lit r : LITS) if (isNum(l.v()) && isNum(r.v())) for (String op : AOPS) check('A', new Bin(op, l, r), map());
        while (!late()) {
            Map<String, Object> d = map("a", num(), "b", rndNum()); for (String op : AOPS) check('A', new Bin(op, fld("a"), fld("b")), d);
            E e = arithNum(3); check('A', e, d); check('A', new Bin(pick(AOPS), e, new Fn(pick(List.of("MIN", "SUM", "MAX", "INT")), List.of(arithNum(1)))), d);
        }
    }
    static void C09() {
        List<Object> all = new ArrayList<>(OTHER); all.addAll(SMALL); all.add(5); all.add(2147483648L); all.add(bd("1.50")); all.add(0);
        arithPairs(all, all, p -> true); arithPairs(NUMS, List.of("abc", true, new ComparableVersion("1.0.0"), LocalDate.of(2024, 1, 1), "5"), p -> true);
        for (Lit l : LITS) for (Lit r : LITS) for (String op : AOPS) check('A', new Bin(op, l, r), map());
        for (Lit l : LITS) check('A', new Un("UNARY", l), map());
        while (!late()) { Map<String, Object> d = data(); check('A', arith(3), d); }
    }
    static void fns(List<String> fs, Supplier<Object> v) {
        for (String f : fs) { for (Object x : NUMS) check('A', new Fn(f, List.of(fld("a"))), map("a", x)); for (Object x : OTHER) { check('A', new Fn(f, List.of(fld("a"))), map("a", x)); check('A', new Fn(f, List.of(fld("a"), lit("1"))), map("a", x)); check('A', new Fn(f, List.of(lit("1"), fld("a"))), map("a", x)); }
            check('A', new Fn(f, List.of(fld("zz"))), map()); for (Object x : SMALL) for (Object y : SMALL) { check('A', new Fn(f, List.of(fld("a"), fld("b"))), map("a", x, "b", y)); check('A', new Fn(f, List.of(fld("l"))), map("l", new ArrayList<>(List.of(x, y)))); }
            for (Object x : NUMS) for (Object y : NUMS) if (R.nextInt(4) == 0) check('A', new Fn(f, List.of(fld("a"), fld("b"))), map("a", x, "b", y)); }
        // long collections: a few values many times each
        for (int n : new int[] {64, 127, 128, 129, 130, 255, 256, 257, 300, 520}) for (int q = 1; q <= 3; q++) {
            List<Object> vals = new ArrayList<>(); Object[] w = new Object[q]; for (int i = 0; i < q; i++) w[i] = v.get(); for (int i = 0; i < n; i++) vals.add(w[i % q]);
            if (R.nextBoolean()) Collections.shuffle(vals, R); for (String f : fs) check('A', new Fn(f, List.of(fld("l"))), map("l", vals)); if (R.nextBoolean()) for (String f : fs) check('A', new Fn(f, List.of(fld("l"), lit("1"))), map("l", vals));
        }
        while (!late()) {
            Map<String, Object> d = new LinkedHashMap<>(); List<E> es = new ArrayList<>(); int n = 1 + len(6); Object prev = v.get();
            for (int i = 0; i < n; i++) { prev = R.nextInt(3) == 0 ? same(prev) : v.get(); d.put("e" + i, prev); es.add(fld("e" + i)); }
            List<Object> vals = new ArrayList<>(d.values()); d.put("l", vals); d.put("s", R.nextBoolean() ? new ArrayDeque<>(vals) : new ArrayList<>());
            for (String f : fs) { check('A', new Fn(f, es), d); check('A', new Fn(f, List.of(fld("l"))), d); }
            Collections.shuffle(es, R); String f = pick(fs); check('A', new Fn(f, es), d);
            List<E> mix = new ArrayList<>(); for (int i = 0; i < 1 + R.nextInt(3); i++) mix.add(R.nextInt(3) == 0 ? fld("l") : R.nextInt(6) == 0 ? fld("s") : R.nextInt(3) == 0 ? numLit() : R.nextInt(4) == 0 ? new Fn(pick(fs), es) : new Bin(pick(List.of("+", "-", "*")), fld("e0"), numLit()));
            check('A', new Fn(f, mix), d);
            check('B', new Bin(pick(OPS), new Fn(f, mix), new Fn(pick(fs), es)), d);
        }
    }
    static Object smallNum() { int x = R.nextInt(6) - 1; switch (R.nextInt(7)) { case 0: return (long) x; case 1: return (double) x; case 2: return (float) x; case 3: return bd(x + ".00"); case 4: return bd(x + ".5"); case 5: return num(); default: return x; } }
    static void C10() { fns(List.of("MIN", "MAX", "SUM", "AVG", "MEAN"), () -> R.nextInt(3) == 0 ? smallNum() : num()); }
    static void C11() { fns(List.of("MEDIAN", "MODE"), Harness::smallNum); }
    static void C12() {
        long t0 = LocalDate.now().toEpochDay();
        for (long k : new long[] {0, 1, -1, 2, 30, -30, 31, 365, 366, -400, 10000, -10000, 200000}) { LocalDate x = LocalDate.ofEpochDay(t0 - k); check('A', new Fn("DAYS_ELAPSED", List.of(fld("a"))), map("a", x)); if (x.getYear() < 10000) { check('A', new Fn("DAYS_ELAPSED", List.of(fld("a"))), map("a", x.toString())); if (x.getYear() > 999) check('A', new Fn("DAYS_ELAPSED", List.of(lit(x.toString()))), map()); } }
        for (String s : List.of("", "a", "abc", "a b", " ", "\ud83d\ude00", "x".repeat(300))) { check('A', new Fn("LEN", List.of(fld("a"))), map("a", s)); check('A', new Fn("LEN", List.of(fld("a"), fld("a"))), map("a", s)); }
        for (int n = 0; n < 40; n++) { List<Object> l = new ArrayList<>(); for (int i = 0; i < n; i++) l.add(R.nextInt(3) == 0 ? "s" + i : (Object) i); check('A', new Fn("LEN", List.of(fld("a"))), map("a", l)); check('A', new Fn("LEN", List.of(fld("a"), lit("1"))), map("a", l)); check('A', new Fn("LEN", List.of(fld("a"))), map("a", new LinkedHashSet<>(l))); }
        for (int i = 0; i < 300; i++) { LocalDate x = rndDate(); check('A', new Fn("DAYS_ELAPSED", List.of(fld("a"))), map("a", R.nextBoolean() ? x : x.toString())); check('A', new Fn("DAYS_ELAPSED", List.of(lit(x.toString()))), map()); LocalDateTime y = x.atTime(R.nextInt(24), R.nextInt(60), R.nextInt(60)); check('A', new Fn("DAYS_ELAPSED", List.of(fld("a"))), map("a", R.nextBoolean() ? y : y.toString().replace('T', ' '))); StringBuilder b = new StringBuilder(); for (int k = len(20); k > 0; k--) b.append("aB 1.é\t'\u0130".charAt(R.nextInt(9))); check('A', new Fn("LEN", List.of(fld("a"))), map("a", b.toString())); }
        for (Object v : OTHER) if (v instanceof LocalDate) check('A', new Fn("DAYS_ELAPSED", List.of(fld("a"))), map("a", v));
        fns(List.of("LEN", "INT", "DAYS_ELAPSED"), () -> R.nextInt(3) > 0 ? num() : anyVal());
    }
    static void C13() {
        List<String> keys = new ArrayList<>(List.of("a", "b", "c", "A", "a.b", "b.c", "a1", "_x", "B")); keys.addAll(MNAMES);
        List<String> names = new ArrayList<>(keys); for (String x : keys) for (String y : keys) { names.add(x + "." + y); if (R.nextInt(3) == 0) names.add(x + "." + y + "." + pick(keys)); }
        names.addAll(List.of("a.b.c.a.b.c", "a.a.a.a"));
        while (!late()) {
            Map<String, Object> d = rmap(3, keys);
            String n = pick(names), n2 = pick(names);
            // steps into values that are not maps
            if (R.nextInt(6) == 0) { String k = pick(List.of("a", "b", "c")); d.put(k, R.nextInt(3) == 0 ? anyVal() : R.nextBoolean() ? coll() : new ArrayList<>(List.of(pick(SMALL), rmap(1, keys), 3))); n = k + "." + pick(List.of("0", "1", "2", "00", "size", "length", "empty", "get", "first", "last", "x", "value", "class", "a", "b", "1.a", "0.0")); if (R.nextInt(3) == 0) { d = map("m", d); n = "m." + n; } }
            if (R.nextInt(4) == 0) { List<String> ps = new ArrayList<>(); int q = 2 + len(9); for (int i = 0; i < q; i++) ps.add(pick(keys).replace(".", "")); n = String.join(".", ps); Map<String, Object> m = d; for (int i = 0; i < q - 1; i++) { Map<String, Object> m2 = R.nextInt(3) == 0 ? rmap(1, keys) : new HashMap<>(); m.put(ps.get(i), m2); if (R.nextInt(20) == 0) break; if (R.nextInt(6) == 0) m.put(String.join(".", ps.subList(i, Math.min(q, i + 1 + R.nextInt(3)))), pick(SMALL)); if (m.get(ps.get(i)) != m2) break; m = m2; } m.putIfAbsent(ps.get(q - 1), pick(SMALL)); }
            check('A', fld(n), d); check('B', fld(n), d); check('B', new Un("NOT", fld(n)), d); check('B', new Bin("=", fld(n), fld("null")), d); check('B', new Bin(pick(OPS), fld(n), lit()), d); check('B', new Bin(pick(OPS), lit(), fld(n)), d);
            check('B', new Bin(pick(OPS), fld(n), fld(n2)), d); check('A', new Bin(pick(AOPS), fld(n), fld(n2)), d); check('A', new Un("UNARY", fld(n)), d); check('B', new In(n, R.nextBoolean(), List.of(lit(), fld(n2))), d); check('B', new Arr(n, pick(List.of("CONTAINS_ANY", "CONTAINS_ALL")), List.of(fld(n2))), d);
            check('B', new Rng(n, numLit(), numLit()), d); check('A', new Fn(pick(List.of("MIN", "SUM", "LEN", "INT", "MODE", "MEDIAN", "AVG")), List.of(fld(n), fld(n2))), d); check('B', new Bin(pick(List.of("AND", "OR")), fld(n), fld(n2)), d);
        }
    }
    static Map<String, Object> rmap(int d, List<String> keys) { Map<String, Object> m = R.nextInt(4) == 0 ? new TreeMap<>() : new HashMap<>(); int n = R.nextInt(5); for (int i = 0; i < n; i++) { int k = R.nextInt(6); m.put(pick(keys), k < 3 && d > 0 ? rmap(d - 1, keys) : k == 3 ? null : k == 4 ? (Object) R.nextBoolean() : pick(SMALL)); } return m; }
    static void C14() {
        List<Object> vs = new ArrayList<>(NUMS); vs.addAll(OTHER); vs.add(null);
        for (Object v : vs) for (String op : OPS) for (String n : List.of("null", "NULL", "Null")) {
            check('B', new Bin(op, fld("a"), fld(n)), map("a", v)); check('B', new Bin(op, fld(n), fld("a")), map("a", v)); check('B', new Bin(op, fld("m.a"), fld(n)), map("m", map("a", v))); check('B', new Bin(op, fld(n), fld("m.a")), map("m", map("a", v))); check('B', new Bin(op, fld("a.b"), fld(n)), map("a", v)); check('B', new Bin(op, fld("zz"), fld(n)), map("a", v)); check('B', new Bin(op, fld(n), fld("zz")), map("a", v));
        }
        for (String op : OPS) { check('B', new Bin(op, fld("null"), fld("null")), map()); for (Lit l : LITS) { check('B', new Bin(op, l, fld("null")), map()); check('B', new Bin(op, fld("null"), l), map()); } }
        while (!late()) {
            Map<String, Object> d = data(); E x = R.nextInt(3) == 0 ? arith(2) : R.nextInt(4) == 0 ? bool(1) : name(), n = fld(pick(List.of("null", "NULL", "null")));
            E c = R.nextBoolean() ? new Bin(pick(OPS), x, n) : new Bin(pick(OPS), n, x);
            check('B', c, d); check('B', new Bin(pick(List.of("AND", "OR")), c, bool(0)), d); check('B', new Un("NOT", c), d);
        }
    }
    static final List<String> SOUP = List.of("a", "b", "l", "m.x", "5", "1.5", "1.0.0", "'x'", "\"y\"", "2024-01-01", "2024-02-31", "true", "false", "null", "(", ")", "(", ")", ",", "=", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^", "AND", "OR", "&&", "||", "NOT", "IN", "TO", "CONTAINS_ANY", "CONTAINS_ALL", "min", "MAX", "len", "int", "avg", "days_elapsed", "99999999999999999999", "'", "\"", "@", "$", "..", ".", "a.", ".a", "\u0130", "[", "]", "!", "&", "=>", "");
    static void C15() {
        List<Object> weird = new ArrayList<>(OTHER); weird.addAll(NUMS); weird.add(null); weird.add(Arrays.asList(1, null, 3)); weird.add(Arrays.asList((Object) null)); weird.add(new Object[] {null, 1}); weird.add(new int[] {1, 2}); weird.add(new Object()); weird.add(List.of(List.of(1), List.of())); weird.add(new HashMap<>()); weird.add(new StringBuilder("x")); weird.add(Optional.of(1)); weird.add(Map.of("x", List.of())); weird.add(new Date(0)); weird.add(Locale.ROOT);
        // every pair of operand kinds under every operator, and every construct given to both evaluators
        for (Object v : weird) for (Object w : weird) { Map<String, Object> d = map("a", v, "b", w); for (String x : R.nextInt(4) == 0 ? List.of("a " + pick(OPS) + " b", "a " + pick(AOPS) + " b", "a IN (b)", "a CONTAINS_ANY (b, b)", pick(List.of("min", "max", "sum", "avg", "mean", "mode", "median", "len", "int", "days_elapsed")) + "(a, b)", "NOT a", "a AND b", "a 1 TO 5") : List.of("a " + pick(OPS) + " b", "a " + pick(AOPS) + " b")) total(x, d, null); }
        for (E e : List.of(new Bin("+", fld("a"), lit("1")), new Fn("MIN", List.of(lit("1"))), new Un("UNARY", fld("a")))) check('B', e, map("a", 1));
        for (E e : List.of(new Bin("=", fld("a"), lit("1")), new Bin("AND", fld("t"), fld("t")), new Un("NOT", fld("t")), new In("a", false, List.of(lit("1"))), new Arr("l", "CONTAINS_ANY", List.of(lit("1"))), new Rng("a", (Lit) lit("1"), (Lit) lit("2")))) check('A', e, map("a", 1, "t", true, "l", List.of(1)));
        for (String x : List.of("", " ", "(", ")", "()", "a = ", "= 5", "a b", "5 5", "a AND", "min(", "min()", "a IN", "a IN ()", "a IN (", "a TO 5", "a 1 TO", "NOT", "-", "a = 'x", "a > > 5", "a = 99999999999999999999", "99999999999999999999", "2024-02-30", "a = 2024-13-45", "2024-01-01 25:61:61", "a = 5)", "a = 5 b", "null", "null = null", "(((((a)))))", "a.b.c.", "...", ". = 1", "a..b = 1")) for (String df : new String[] {null, "", "a", "..", "a b"}) total(x, map("a", 1), df);
        String deep = "a"; for (int i = 0; i < 60; i++) deep = i % 3 == 0 ? "(" + deep + ")" : i % 3 == 1 ? "(" + deep + " AND a)" : "(NOT (" + deep + "))"; total(deep, map("a", true), null);
        // operands that are missing, with and without a default field
        for (int i = 0; i < 200; i++) {
            List<String> t = new ArrayList<>(); gexpr(t, R.nextInt(3));
            if (i % 2 == 0) t = new ArrayList<>(i % 4 == 0 ? List.of(pick(BINOPS), pick(List.of("5", "a", "'x'", "true"))) : List.of(pick(List.of("a", "t", "5")), pick(BINOPS), "(", pick(BINOPS), pick(List.of("5", "a", "'x'", "true")), ")"));
            else if (R.nextBoolean()) t.remove(R.nextInt(t.size()));
            for (String df : Arrays.asList(null, null, "a", "t", "zz")) {
                E e; try { e = new Parser(new ArrayList<>(t), df).parse(); } catch (RuntimeException x) { continue; }
                Map<String, Object> d = data(); String x = String.join(" ", t);
                if (!ptree(parser, x, df, df == null).equals(rtree(e))) continue;
                for (char w : new char[] {'B', 'A'}) { if (w == 'A' && df != null) continue; cases++; Out o = lib(w, x, d, df); String v = verdict(w, e, d, o); if (v != null) bad(w, x, df, d, v, o); }
            }
        }
        while (!late()) {
            Map<String, Object> d = data(); if (R.nextBoolean()) d.put("a", pick(weird)); if (R.nextBoolean()) d.put("l", pick(weird));
            StringBuilder b = new StringBuilder(); int n = 1 + R.nextInt(9); for (int i = 0; i < n; i++) b.append(pick(SOUP)).append(R.nextInt(4) == 0 ? "" : " ");
            total(b.toString(), d, R.nextBoolean() ? null : pick(List.of("a", "zz", "", "l")));
            E e = R.nextBoolean() ? bool(2) : arith(2); check('B', e, d); check('A', e, d);
            String t = text(e); int i = R.nextInt(t.length() + 1), j = Math.min(t.length(), i + R.nextInt(4)); total(t.substring(0, i) + (R.nextBoolean() ? pick(SOUP) : "") + t.substring(j), d, null);
        }
    }
    static void total(String x, Map<String, Object> d, String df) {
        cases++; compared++;
        for (char w : new char[] {'B', 'A', '2'}) { Out o = w == '2' ? run(() -> BEV.evaluate(x, d)) : lib(w, x, d, df); if (w == '2') w = 'B'; if (o.kind.equals("threw")) bad(w, x, df, d, "a Success holding a value or a Failure", o); if (w == 'B' && o.kind.equals("ok") && !(o.v instanceof Boolean)) bad(w, x, df, d, "a Boolean", o); }
        for (String q : new String[] {df, null}) { String p = ptree(parser, x, q, q == null); if (p.startsWith("threw") || p.equals("null")) bad('B', x, q, d, "parsing gives a Success holding a tree or a Failure", p); }
    }
    /** cases whose values look alike but are not, evaluated in both orders, each by a fresh copy of the library */
    static void orders() throws Exception {
        List<String> l = new ArrayList<>(); List<Object[]> cs = new ArrayList<>();
        for (int i = 0; i < 60; i++) {
            int n = 1000 + R.nextInt(900000), q = R.nextInt(1000); LocalDate d = rndDate(); List<Object> vs = new ArrayList<>();
            switch (i % 6) {
                case 0: case 1: vs.addAll(List.of(n, (long) n, "" + n, new BigDecimal(n))); break;
                case 2: vs.addAll(List.of(bd(n + ".5"), n + ".5", n + 0.5)); break;
                case 3: if (d.toString().length() == 10) vs.addAll(List.of(d, d.toString())); break;
                case 4: vs.addAll(List.of("1." + n + "." + q, new ComparableVersion("1." + n + "." + q))); break;
                default: vs.addAll(List.of(true, "true", "TRUE", new ArrayList<>(List.of(n, q)), new ArrayList<>(List.of("" + n, q))));
            }
            Collections.shuffle(vs, R); String x = pick(List.of("max(k, 3)", "k + 1", "k + 'x'", "-k", "k * 2", "int(k)", "len(k)", "sum(k, 1, 2)", "k = " + n, "k != '" + n + "'", "k > 5", "k <= " + n + ".5", "k in (1, " + n + ")", "l contains_any (" + n + ", 3)", "k = '" + d + "'", "k < 1." + n + ".5", "k", "not k", "k 1 TO " + n, "m.k = " + n));
            for (Object v : vs) { Map<String, Object> m = map("k", v, "l", new ArrayList<>(List.of(v)), "m", map("k", v)); for (char w : new char[] {'A', 'B'}) { String s = Val.show(m); if (!s.contains("\n")) { cs.add(new Object[] {w, x, m}); l.add("" + w); l.add(Val.q(x)); l.add(s); l.add("-"); } } }
        }
        Path f = Files.createTempFile("orders", "");
        try {
            Files.write(f, l); String[] a = Race.answersAnew(f.toString(), false), b = Race.answersAnew(f.toString(), true);
            for (int i = 0; i < a.length; i++) { cases++; compared++; if (!a[i].equals(b[i])) { Object[] c = cs.get(i); @SuppressWarnings("unchecked") Map<String, Object> m = (Map<String, Object>) c[2]; bad((char) c[0], (String) c[1], null, m, "the same answer in whatever order the evaluations of a process come, but after those before it: " + a[i], "after those that follow it: " + b[i]); } }
        } finally { Files.delete(f); }
    }
    static void C16() throws Exception {
        class Fixed implements BoolExpressionParser { final Map<String, Node> m = new HashMap<>(); public Try<Node> parseExpression(String e, String f) { return parseExpression(e); } public Try<Node> parseExpression(String e) { Node n = m.get(e); if (n != null) return Try.success(n); Try<Node> t = parser.parseExpression(e, null); if (t.isSuccess()) m.put(e, t.get()); return t; } }
        long lim = System.nanoTime() + (deadline - System.nanoTime()) / 4;
        for (int k = 0; k < 3 || System.nanoTime() < lim && k < 200; k++) orders();
        while (!late()) {
            Fixed fx = new Fixed();
            List<Object[]> cs = new ArrayList<>();
            for (int i = 0; i < 12; i++) { E e = R.nextBoolean() ? bool(2) : arith(2); Map<String, Object> d = data(); if (i % 3 == 1) { e = new Fn(pick(List.of("MEDIAN", "MODE", "MIN", "MAX", "SUM", "AVG", "MEAN", "LEN")), List.of(fld("l"), fld("b"))); } if (i % 3 == 2) e = R.nextBoolean() ? new In("a", false, List.of(fld("l"), fld("k"))) : new Arr("l", pick(List.of("CONTAINS_ANY", "CONTAINS_ALL")), List.of(fld("k")));
                if (R.nextInt(3) == 0) { List<Object> l = new ArrayList<>(); for (int q = 0; q < 5; q++) l.add(num()); d.put("l", l); }
                if (R.nextInt(3) == 0) { String[] ps = Arrays.copyOf(new String[] {"p", "q", "r", "s", "t", "u"}, 2 + R.nextInt(5)); String n = String.join(".", ps); Map<String, Object> m = d; for (int k = 0; k < ps.length - 1; k++) { Map<String, Object> m2 = map("z", 1); m.put(ps[k], m2); m = m2; } m.put(ps[ps.length - 1], R.nextBoolean() ? num() : coll()); e = pick(List.of(new Bin(pick(OPS), fld(n), numLit()), new Bin("+", fld(n), fld("b")), fld(n), new Fn("SUM", List.of(fld(n), fld("b"))), new In("a", false, List.of(fld(n))), new In(n, false, List.of(fld("a"))), new Un("UNARY", fld(n)), new Bin("=", fld("a"), fld(n)))); }
                if (text(e).contains("DAYS_ELAPSED")) continue; cs.add(new Object[] {text(e), d, e}); if (i % 2 == 0) cs.add(new Object[] {text(e), data(), e});
                if (i % 4 == 3) { e = R.nextBoolean() ? new Fn(pick(List.of("MEDIAN", "MODE", "MIN", "MAX", "SUM", "AVG", "MEAN", "INT")), List.of(arithNum(2))) : new Bin(pick(OPS), arithNum(1), arithNum(1)); for (int q = 0; q < 3; q++) cs.add(new Object[] {text(e), map("a", 1 + R.nextInt(9), "b", 1 + R.nextInt(9)), e}); } }
            List<String> first = new ArrayList<>(), snap = new ArrayList<>(), trees = new ArrayList<>(); List<Out> firsts = new ArrayList<>(); List<List<Object>> ids = new ArrayList<>();
            for (Object[] c : cs) { trees.add(ptree(fx, (String) c[0], null, true)); snap.add(Val.show(c[1])); ids.add(identities(c[1], new ArrayList<>())); }
            for (Object[] c : cs) { BooleanExpressionEvaluator b = new BooleanExpressionEvaluator(fx); ArithmeticExpressionEvaluator a = new ArithmeticExpressionEvaluator(fx); @SuppressWarnings("unchecked") Map<String, Object> m = (Map<String, Object>) c[1]; first.add(show(run(() -> b.evaluate((String) c[0], m, null))) + " | " + show(run(() -> a.evaluate((String) c[0], m)))); }
            BooleanExpressionEvaluator b = new BooleanExpressionEvaluator(fx), b2 = new BooleanExpressionEvaluator(new CachedBoolParser(5)); ArithmeticExpressionEvaluator a1 = new ArithmeticExpressionEvaluator(fx), a2 = new ArithmeticExpressionEvaluator(new CachedBoolParser(5));
            for (int k = 0; k < 3 * cs.size(); k++) {
                int i = R.nextInt(cs.size()); Object[] c = cs.get(i); @SuppressWarnings("unchecked") Map<String, Object> m0 = (Map<String, Object>) c[1];
                boolean frozen = R.nextInt(3) == 0; Map<String, Object> m = frozen ? freeze(m0) : m0; BooleanExpressionEvaluator bb = R.nextInt(4) == 0 ? b2 : b; ArithmeticExpressionEvaluator a = R.nextInt(4) == 0 ? a2 : a1;
                String r = show(run(() -> bb.evaluate((String) c[0], m, null))) + " | " + show(run(() -> a.evaluate((String) c[0], m)));
                cases++; compared++;
                if (!r.equals(first.get(i))) bad('B', (String) c[0], null, m0, "the answer of the first evaluation (boolean | arithmetic evaluator): " + first.get(i), r + (frozen ? " (with unmodifiable data)" : " (evaluated again)"));
                if (!Val.show(m0).equals(snap.get(i)) || !same(ids.get(i), identities(m0, new ArrayList<>()))) bad('B', (String) c[0], null, m0, "the data unchanged: " + snap.get(i), Val.show(m0));
                String t = ptree(fx, (String) c[0], null, true); if (!t.equals(trees.get(i))) bad('B', (String) c[0], null, m0, "the tree unchanged: " + trees.get(i), t);
            }
        }
    }
    static String show(Out o) { return o.kind.equals("ok") ? Val.show(o.v) : o.kind; }
    static List<Object> identities(Object v, List<Object> out) { out.add(v); if (v instanceof Map<?, ?> m) for (Object k : new TreeSet<Object>(m.keySet())) identities(m.get(k), out); else if (v instanceof Collection<?> c) for (Object x : c) identities(x, out); else if (v instanceof Object[] a) for (Object x : a) identities(x, out); return out; }
    static boolean same(List<Object> a, List<Object> b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); i++) if (a.get(i) != b.get(i)) return false; return true; }
    @SuppressWarnings("unchecked")
    static Map<String, Object> freeze(Map<String, Object> m) { Map<String, Object> o = new LinkedHashMap<>(); m.forEach((k, v) -> o.put(k, v instanceof Map ? freeze((Map<String, Object>) v) : v instanceof List<?> l ? Collections.unmodifiableList(l) : v instanceof Set<?> s ? Collections.unmodifiableSet(s) : v instanceof Collection<?> c ? Collections.unmodifiableCollection(c) : v)); return Collections.unmodifiableMap(o); }

    static void tree(String x, String want, String df) { cases++; compared++; String got = ptree(parser, x, df, df == null); if (!got.equals(want)) throw new Bad("the tree of the expression differs from the property", "expression=" + Val.q(x), "default=" + (df == null ? "null" : Val.q(df)), "required=" + want, "observed=" + got); }
    static void C17() {
        List<String> ok = new ArrayList<>(List.of("0", "1", "007", "2147483647", "2147483648", "4294967296", "9223372036854775807", "0.0", "1.0", "1.50", "00.10", "123456789012345678901234567890.12345678901234567890", "10.25", "0.10", "3.14", "1.2.3", "1.10.0", "0.0.1", "9.9.9.9", "1.2.3.4.5", "5.00.1", "true", "TRUE", "false", "FALSE", "2024-01-01", "2024-02-29", "1999-12-31", "0001-01-01", "2024-01-01 00:00:00", "2024-12-31 23:59:59", "2000-02-29 12:30:45"));
        for (String s : List.of("", " ", "abc", "ABC", "AbC", "a b  c", "5", "1.0.0", "true", "null", "NULL", "2024-01-01", "a = 5 AND b", "(x", "x)", "IN (1, 2)", "not", "\t", "é ü ß", "\ud83d\ude00", "a,b", "%", "\\", "\\n", "$1", "İi", "a\nb", "TO", "min(1)")) { ok.add("'" + s + "'"); ok.add("\"" + s + "\""); }
        for (int k = 1; k < 4; k++) for (String z : List.of("0", "5", "10", "17", "08", "777", "123456", "2147483647", "2147483648")) ok.add("0".repeat(k) + z);
        for (String s : List.of("it''s", "''", "''''", "a''b''c", "x'y", "'x'", "'", " ' ", "\\", "\\\\", "&#39;", "%27", "%20", "\\t", "${a}", "{0}", "a''", "''a", "aa'a'a'aa")) { ok.add("\"" + s + "\""); ok.add("'" + s.replace("'", "\"") + "'"); }
        ok.addAll(List.of("'say \"hi\"'", "\"it's\"", "'\"'", "\"'\"", "'\"quoted\"'", "\"'quoted'\""));
        for (int i = 0; i < 300; i++) { ok.add("" + (R.nextLong() >>> (1 + R.nextInt(62)))); ok.add(Math.abs(R.nextInt()) + "." + String.format("%0" + (1 + R.nextInt(8)) + "d", R.nextInt(10))); ok.add(R.nextInt(10) + "." + R.nextInt(100) + "." + R.nextInt(100) + (R.nextBoolean() ? "" : "." + R.nextInt(100))); ok.add(LocalDate.of(1000 + R.nextInt(8999), 1, 1).plusDays(R.nextInt(366)).toString()); StringBuilder b = new StringBuilder(); for (int k = R.nextInt(8); k > 0; k--) b.append("aB 1.()=<>+-*/%^&|,!#@_\"".charAt(R.nextInt(24))); ok.add("'" + b + "'"); b.setLength(0); for (int k = R.nextInt(9); k > 0; k--) b.append("aB 1.''-".charAt(R.nextInt(8))); ok.add("\"" + b + "\""); ok.add("'" + b.toString().replace("'", "\"") + "'"); ok.add("0".repeat(1 + R.nextInt(3)) + R.nextInt(100000)); }
        for (String s : ok) { Lit l = lit(s); String t = rtree(l);
            tree(s, t, null); tree("(" + s + ")", t, null); tree("a = " + s, "($a EQUALS " + t + ")", null); tree(s + " != b", "(" + t + " NOT_EQUAL $b)", null); tree("a IN (" + s + ", " + s + ")", "a IN<" + t + "," + t + ">", null); tree("a CONTAINS_ANY (" + s + ")", "a CONTAINS_ANY<" + t + ">", null); tree("min(" + s + ", x)", "MIN<" + t + ",$x>", null); tree("a = 1 AND b >= " + s, "[($a EQUALS INTEGER:I:1) AND ($b GREATER_THAN_EQUAL " + t + ")]", null); tree("x + " + s, "{$x ADD " + t + "}", null); tree("-" + s, "{- " + t + "}", null);
            if (l.dt().equals("INTEGER") || l.dt().equals("LONG") || l.dt().equals("DECIMAL")) { tree("a " + s + " TO " + s, "a " + t + ".." + t, null); tree("a 1 TO " + s, "a INTEGER:I:1.." + t, null); }
            check('A', l, map()); check('A', l, "(" + s + ")", map()); if (late() && cases > 3000) return; }
        for (String s : List.of("9223372036854775808", "99999999999999999999", "2024-02-30", "2023-02-29", "2024-13-01", "2024-00-10", "2024-01-32", "2024-01-00", "2024-01-01 24:00:00", "2024-01-01 10:60:00", "2024-01-01 10:00:60", "2024-04-31", "1900-02-29")) for (String x : List.of(s, "a = " + s, s + " = a", "a IN (1, " + s + ")", "a > 5 AND b = " + s, "x + " + s, "min(" + s + ")")) {
            cases++; compared++;
            for (char w : new char[] {'A', 'B'}) { Out o = lib(w, x, map("a", 1, "x", 1, "b", 1), null); if (!o.kind.equals("fail") && !(x.startsWith("a IN (1") && s.length() > 9 && false)) bad(w, x, null, map("a", 1, "x", 1, "b", 1), "a Failure: no such number or date", o); }
        }
        for (String n : List.of("a", "abc", "a.b", "a_b", "_a", "A1", "x1.y2.z3", "null", "NULL", "Not", "And", "True", "Min", "tO", "In", "iN", "Contains_any", "mInimum", "min1", "orange", "android", "notes", "internal", "total", "Null", "ANDY", "truefalse")) { tree(n, "$" + n, null); tree(n + " = " + n, "($" + n + " EQUALS $" + n + ")", "df"); tree("a IN (" + n + ")", "a IN<$" + n + ">", null); tree(n + " IN (1)", n + " IN<INTEGER:I:1>", null); tree(n + " 1 TO 2", n + " INTEGER:I:1..INTEGER:I:2", null); tree("NOT " + n, "[NOT ~" + n + "]", null); }
    }
    static void toks(List<String> t) { toks(t, " ", "DF"); }
    static void toks(List<String> t, String sep, String df) {
        E e = new Parser(t, df).parse();
        tree(String.join(sep, t), rtree(e), df);
    }
    static final List<String> BINOPS = List.of("=", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^", "AND", "OR");
    static void C18() {
        // every chain of up to three binary operators, with and without prefix operators
        for (String o : BINOPS) { toks(List.of("a", o, "b")); if (!Character.isLetter(o.charAt(0))) toks(List.of("(", "a", o, "b", ")"), "", "DF"); for (String p : List.of("NOT", "-")) { toks(List.of(p, "a", o, "b")); toks(List.of("a", o, p, "b")); } 
            for (String o2 : BINOPS) { toks(List.of("a", o, "b", o2, "c")); toks(List.of("(", "a", o, "b", ")", o2, "c")); toks(List.of("a", o, "(", "b", o2, "c", ")")); for (String p : List.of("NOT", "-")) { toks(List.of(p, "a", o, "b", o2, "c")); toks(List.of("a", o, p, "b", o2, "c")); toks(List.of("a", o, "b", o2, p, "c")); toks(List.of(p, "(", "a", o, "b", ")", o2, "c")); }
                for (String o3 : BINOPS) toks(List.of("a", o, "b", o2, "c", o3, "d")); } }
        for (String x : List.of("a = 5 b", "a = 5 )", "a = 5 6", "a = 5 AND b = 6 c", "(a = 5) (b = 6)", "a = 5 (", "a IN (1) 5", "a 1 TO 5 6", "min(1) 2", "a b", "5 'x'", "a = 1 'junk'", "a > 5 min(1)", "NOT a b", "a = 5 , b = 6", "a = 5)) AND b = 6", "a = 5 ) AND (b = 6")) tree(x, "FAILURE", "DF");
        // missing operands
        for (String o : BINOPS) if (!o.equals("-")) { toks(List.of(o, "5")); toks(List.of("a", "AND", "(", o, "5", ")")); toks(List.of("(", o, "5", ")", "OR", "(", o, "6", ")")); }
        while (!late()) { List<String> t = new ArrayList<>(); gexpr(t, 1 + R.nextInt(4)); toks(t, R.nextInt(3) == 0 ? "  " : " ", R.nextBoolean() ? "DF" : "x.y"); }
    }
    static void gexpr(List<String> t, int d) {
        int n = R.nextInt(4);
        gprim(t, d);
        for (int i = 0; i < n; i++) { t.add(R.nextInt(4) == 0 ? pick(List.of("and", "or", "&&", "||")) : pick(BINOPS)); gprim(t, d); }
    }
    static void glist(List<String> t, int d) { t.add("("); int n = 1 + len(4); for (int i = 0; i < n; i++) { if (i > 0) t.add(","); if (d <= 0 || R.nextBoolean()) gprim(t, 0); else gexpr(t, d - 1); } t.add(")"); }
    static final List<String> GNAMES = List.of("a", "b", "x.y", "foo_1", "null", "_", "A", "_b", "a1.b2.c3", "Null", "x", "field", "value");
    static void gprim(List<String> t, int d) {
        int k = R.nextInt(d <= 0 ? 5 : 12);
        if (k < 3) t.add(!MNAMES.isEmpty() && R.nextInt(4) == 0 ? pick(MNAMES) : pick(GNAMES));
        else if (k < 5) t.add(pick(List.of("1", "2.5", "1.2.3", "true", "'s t'", "\"q\"", "2024-01-01", "9999999999", "2024-01-01 10:00:00")));
        else if (k < 7) { t.add("("); gexpr(t, d - 1); t.add(")"); }
        else if (k == 7) { t.add(pick(List.of("NOT", "not"))); gprim(t, d - 1); }
        else if (k == 8) { t.add("-"); gprim(t, d - 1); }
        else if (k == 9) { t.add(pick(List.of("MIN", "max", "SUM", "avg", "mean", "MODE", "median", "len", "INT", "days_elapsed"))); glist(t, d - 1); }
        else if (k == 10) { t.add(R.nextBoolean() ? pick(List.of("a", "b")) : pick(GNAMES)); if (R.nextBoolean()) t.add(pick(List.of("NOT", "not"))); t.add(pick(List.of("IN", "in"))); glist(t, d - 1); }
        else if (R.nextBoolean()) { t.add(R.nextBoolean() ? "a" : pick(GNAMES)); t.add(pick(List.of("CONTAINS_ANY", "contains_all", "CONTAINS_ALL", "contains_any"))); glist(t, d - 1); }
        else { t.add(R.nextBoolean() ? "b" : pick(GNAMES)); t.add("" + R.nextInt(10)); t.add(pick(List.of("TO", "to"))); t.add(R.nextInt(100) + (R.nextBoolean() ? "" : ".5")); }
    }
    static void C19() {
        List<String> ex = new ArrayList<>(List.of("a = 5", "a = 6", "> 5", "= 5", "a", "ab", "a b", "", " ", "a = 'x'", "a = 'X'", "A = 5", "a  = 5", "a = 5 ", "Aa = 1", "BB = 1", "AaAa = 1", "BBBB = 1", "AaBB = 1", "a = 5 AND", "AND b = 5", "a = (", "5 5", "a = 5)", "a_b", "a_", "_b", "null", "> 5null", "2024-02-30", "a = 1:b", "a in (1, 2)", "a in (1,2)", "min(a, b) > 5", "99999999999999999999", "NOT", "> 5 AND < 6", "a,b", "a|b", "a:b", "a#b", "a-b", "a/b"));
        List<String> df = new ArrayList<>(Arrays.asList(null, "", "a", "b", "null", "5", "Aa", "BB", "b_c", "_b", "AaAa", "BBBB", "x", "X", "AaBB", " ", "a b", ",b", "|b", ":b"));
        for (int i = 0; i < 12; i++) { String f = text(bool(1)); ex.add(f); ex.add(f.replace("a", "A")); }
        for (String q : List.of("'", "\"")) for (String t : List.of("x y", "x  y", "x   y", "X y", " x y", "x y ", "x\ty", "x\ny", "(x)", "( x )", "x,y", "x, y", "a = 5", "a=5", "e\u0301", "\u00e9", "\u0130", "i", "I")) { ex.add("a = " + q + t + q); if (q.equals("'")) { ex.add("a IN (" + q + t + q + ", 1)"); ex.add(q + t + q); } }
        // pairs whose concatenation coincides
        for (String s : List.of("> 5", "= x", "abc")) for (int i = 0; i <= s.length(); i++) for (String sep : List.of("", "_", ":", "|", "-", "#", ",", " ", "null")) { ex.add(s.substring(0, i) + (R.nextBoolean() ? sep : "")); df.add((R.nextBoolean() ? sep : "") + s.substring(i)); }
        Map<String, String> plain = new HashMap<>(); int round = 0;
        while (!late() || round < 4) {
            int size = new int[] {0, 1, 2, 3, 10, 1000, 100000}[round++ % 7]; CachedBoolParser c = new CachedBoolParser(size); StringBuilder hist = new StringBuilder("cache of size " + size + ":");
            List<String> hot = new ArrayList<>(); for (int i = 0; i < 8; i++) hot.add(pick(ex)); if (round % 2 == 0) for (int i = 1; i < 8; i++) hot.set(i, ex.get(Math.floorMod(ex.indexOf(hot.get(0)) + i, ex.size()))); List<String> hotd = new ArrayList<>(); for (int i = 0; i < 5; i++) hotd.add(pick(df));
            boolean wide = round % 3 == 0;
            for (int k = 0; k < (wide ? 1500 : 120); k++) {
                String e = wide ? pick(ex) : pick(hot), d = wide ? pick(df) : pick(hotd); boolean one = R.nextInt(4) == 0; if (one) d = null;
                String key = one + "\u0000" + e + "\u0000" + d, want = plain.get(key);
                if (want == null) plain.put(key, want = ptree(parser, e, d, one));
                String got = ptree(c, e, d, one); cases++; compared++; if (hist.length() < 3000) hist.append(" (" + Val.q(e) + "," + (one ? "-" : d == null ? "null" : Val.q(d)) + ")");
                if (!got.equals(want)) throw new Bad("the caching parser differs from the plain parser", "expression=" + Val.q(e), "default=" + (d == null ? "null" : Val.q(d)), "history=" + hist, "required=" + want, "observed=" + got);
            }
            if (round > 200) return;
        }
    }
    static void names() {
        Map<String, Object> d = map("a", 7, "b", 2, "l", new ArrayList<>(List.of(3, 1, 2, 2)), "t", true, "f", false, "s", "abcd", "day", "2024-01-01", "x", 5);
        for (boolean up : new boolean[] {true, false}) {
            UnaryOperator<String> c = s -> up ? s.toUpperCase(Locale.ROOT) : s.toLowerCase(Locale.ROOT);
            for (String f : List.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MODE", "MEDIAN")) { Fn e = new Fn(f, List.of(fld("l"), fld("a"))); check('A', e, c.apply(f) + "(l, a)", d); tree(c.apply(f) + "(l, a)", f + "<$l,$a>", null); }
            for (String f : List.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MODE", "MEDIAN", "LEN", "INT", "DAYS_ELAPSED")) tree(c.apply(f) + "(x)", f + "<$x>", null);
            check('A', new Fn("LEN", List.of(fld("s"))), c.apply("LEN") + "(s)", d); check('A', new Fn("INT", List.of(lit("7.9"))), c.apply("INT") + "(7.9)", d); check('A', new Fn("DAYS_ELAPSED", List.of(fld("day"))), c.apply("DAYS_ELAPSED") + "(day)", d); check('A', new Fn("DAYS_ELAPSED", List.of(lit("2024-01-01"))), c.apply("DAYS_ELAPSED") + "(2024-01-01)", d);
            for (boolean n : new boolean[] {false, true}) for (String v : List.of("7", "8")) check('B', new In("a", n, List.of(lit(v))), "a " + (n ? c.apply("NOT ") : "") + c.apply("IN") + " (" + v + ")", d);
            for (String o : List.of("CONTAINS_ANY", "CONTAINS_ALL")) for (String v : List.of("1, 9", "1, 2", "9")) { List<E> es = new ArrayList<>(); for (String w : v.split(", ")) es.add(lit(w)); check('B', new Arr("l", o, es), "l " + c.apply(o) + " (" + v + ")", d); }
            for (String o : List.of("AND", "OR")) for (String x : List.of("t", "f")) for (String y : List.of("t", "f")) check('B', new Bin(o, fld(x), fld(y)), x + " " + c.apply(o) + " " + y, d);
            for (String x : List.of("t", "f")) { check('B', new Un("NOT", fld(x)), c.apply("NOT") + " " + x, d); check('B', new Un("NOT", new Bin("=", fld("a"), lit("7"))), c.apply("NOT") + " (a = 7)", d); }
            check('B', new Rng("a", (Lit) lit("1"), (Lit) lit("7")), "a 1 " + c.apply("TO") + " 7", d); check('B', new Rng("a", (Lit) lit("1"), (Lit) lit("6")), "a 1 " + c.apply("TO") + " 6", d);
            check('B', lit("true"), c.apply("TRUE"), d); check('B', lit("false"), c.apply("FALSE"), d);
        }
        for (String x : List.of("t", "f")) for (String y : List.of("t", "f")) { check('B', new Bin("AND", fld(x), fld(y)), x + " && " + y, d); check('B', new Bin("OR", fld(x), fld(y)), x + " || " + y, d); }
        for (String o : OPS) for (String x : List.of("6", "7", "8")) check('B', new Bin(o, fld("a"), lit(x)), d);
        for (String o : AOPS) check('A', new Bin(o, fld("a"), fld("b")), d);
        for (String n : List.of("null", "NULL", "Null")) { check('B', new Bin("=", fld("a"), fld(n)), d); check('B', new Bin("!=", fld("zz"), fld(n)), d); }
        for (Object v : List.of("TRUE", "true", "FALSE", "true")) check('B', new Bin("=", fld("a"), lit("true")), map("a", v));
        for (Object v : List.of("2024-01-01", "2024-01-02 10:00:00", "1.5", "7")) for (String o : OPS) for (Lit l : LITS) check('B', new Bin(o, fld("a"), l), map("a", v));
        check('A', lit("2024-01-01"), d); check('A', lit("1.50"), d); check('A', lit("2024-01-01 10:00:00"), d);
    }
    static void C20() throws Exception {
        List<String[]> ls = new ArrayList<>(); for (String s : List.of("en,US", "tr,TR", "az,AZ", "lt,LT", "el,GR", "de,DE", "ar,EG", "fa,IR", "hi,IN", "th,TH", "ja,JP")) ls.add(s.split(","));
        Process[] ps = new Process[ls.size()]; Path dir = Files.createTempDirectory("locale");
        try {
            for (int i = 0; i < ls.size(); i++) ps[i] = new ProcessBuilder(System.getProperty("java.home") + "/bin/java", "-XX:TieredStopAtLevel=1", "-Xmx400m", "-Duser.language=" + ls.get(i)[0], "-Duser.region=" + ls.get(i)[1], "-Duser.country=" + ls.get(i)[1], "-cp", System.getProperty("java.class.path"), "Harness", "names", "1", "60", "-", dir.resolve("r" + i).toString()).redirectErrorStream(true).redirectOutput(dir.resolve("o" + i).toFile()).start();
            for (int i = 0; i < ls.size(); i++) {
                int rc = ps[i].waitFor(); String o = Files.readString(dir.resolve("o" + i));
                for (String l : o.split("\n")) if (l.startsWith("STATS")) { String[] w = l.split(" "); cases += Long.parseLong(w[1]); compared += Long.parseLong(w[2]); }
                if (rc == 1) { List<String> x = new ArrayList<>(Files.readAllLines(dir.resolve("r" + i))); x.add("locale=" + String.join("_", ls.get(i))); throw new Bad(x.toArray(new String[0])); }
                if (rc != 0) throw new IllegalStateException("locale run: " + o);
            }
        } finally { for (File f : dir.toFile().listFiles()) f.delete(); dir.toFile().delete(); }
        Locale before = Locale.getDefault();
        for (Locale l : List.of(Locale.forLanguageTag("tr-TR"), Locale.forLanguageTag("th-TH-u-nu-thai"), Locale.forLanguageTag("ar-EG-u-nu-arab"), Locale.ROOT, before)) { Locale.setDefault(l); try { names(); } finally { Locale.setDefault(before); } }
    }

    /** the cases with the answers they give alone: 4 lines each */
    static List<String> raceCases() {
        List<String> l = new ArrayList<>();
        for (int i = 0; i < 360; i++) {
            Map<String, Object> d = data(); List<Object> big = new ArrayList<>(); int n = i % 5 == 0 ? 400 : 20; for (int q = 0; q < n; q++) big.add(i % 3 == 0 ? (Object) R.nextInt(50) : smallNum()); d.put("big", big);
            int k = i % 10; E e;
            if (k < 3) e = new Fn(pick(List.of("MEDIAN", "MODE", "MIN", "MAX", "SUM", "AVG", "MEAN", "LEN")), List.of(fld("big")));
            else if (k == 3) e = new Arr("big", pick(List.of("CONTAINS_ANY", "CONTAINS_ALL")), List.of(fld("a"), pick(LITS), fld("k")));
            else if (k == 4) e = new In("a", R.nextBoolean(), List.of(fld("big"), fld("b")));
            else if (k == 5) e = new Bin(pick(OPS), fld(pick(NAMES)), R.nextBoolean() ? fld(pick(NAMES)) : lit());
            else e = R.nextBoolean() ? bool(2) : arith(2);
            // families: neighbours run the same code with different values
            int fam = i / 6; String fx = null; char fw = 'B';
            if (fam % 3 == 2) {
                int q = i % 6 + 1, r1 = R.nextInt(9); d.put("p", "left" + q + r1); d.put("q", "right" + r1); d.put("d1", "20" + (10 + q) + "-0" + q + "-1" + r1); d.put("d2", LocalDate.of(2010 + q, q, 10 + R.nextInt(9))); d.put("t1", "20" + (10 + q) + "-0" + q + "-11 10:0" + q + ":1" + r1); d.put("t2", LocalDateTime.of(2010 + q, q, 11, 10, q, 10 + R.nextInt(9)));
                d.put("v1", "1." + q + "." + r1); d.put("n1", q + "." + r1 + "5"); d.put("n2", (Object) (q * 1000 + r1)); d.put("w", map("x", map("y", "deep" + q)));
                switch (fam / 3 % 12) {
                    case 0: fx = "p + q"; fw = 'A'; break;
                    case 1: fx = pick(List.of("d1 < d2", "d1 >= d2", "d1 != d2")); break;
                    case 2: fx = pick(List.of("t1 < t2", "t1 >= t2", "t1 = t2")); break;
                    case 3: fx = pick(List.of("v1 < 1.3.4", "v1 = 1.2.3", "v1 >= 1.4.0")); break;
                    case 4: fx = pick(List.of("n1 > 3", "n1 <= 4.25", "n1 2 TO 4")); break;
                    case 5: fx = "w.x.y = 'deep" + (R.nextInt(6) + 1) + "'"; break;
                    case 6: fx = pick(List.of("n2 + " + r1, "n2 * 1.5", "n2 / 7", "n2 ^ 2", "n2 % 7", "-n2", "n2 - n2 / 3")); fw = 'A'; break;
                    case 7: fx = pick(List.of("INT(n2 / 7)", "LEN(p)", "DAYS_ELAPSED(d1)", "MIN(n2, 4000, 2500)")); fw = 'A'; break;
                    case 8: fx = "p IN ('left" + q + r1 + "', q, 'right" + q + "')"; break;
                    case 9: fx = "p != q AND (n2 > 3004 OR NOT (p = 'left11'))"; break;
                    case 10: fx = "'" + q + "' + n2 + p"; fw = 'A'; break;
                    default: fx = pick(List.of("p = null", "zz = null", "zz != null OR n2 = null"));
                }
            }
            String x = fx != null ? fx : i % 29 == 0 ? "a = ( 5" : i % 31 == 0 ? "a = 5 b" : i % 37 == 0 ? "a = 2024-02-31" : text(e); char w = fx != null ? fw : k == 4 || k == 3 || k == 5 ? 'B' : k < 3 ? 'A' : R.nextBoolean() ? 'A' : 'B';
            String sd = Val.show(d); if (sd.contains("\n")) continue;
            @SuppressWarnings("unchecked") Map<String, Object> d2 = (Map<String, Object>) Val.read(sd);
            BoolParser p = new BoolParser(); BooleanExpressionEvaluator b = new BooleanExpressionEvaluator(p); ArithmeticExpressionEvaluator a = new ArithmeticExpressionEvaluator(p);
            String want = Race.show(() -> w == 'B' ? b.evaluate(x, d2, null) : a.evaluate(x, d2)); if (want.contains("\n")) continue;
            if (!Race.show(() -> w == 'B' ? b.evaluate(x, d2, null) : a.evaluate(x, d2)).equals(want)) continue;
            l.add("" + w); l.add(Val.q(x)); l.add(sd); l.add(want);
        }
        return l;
    }
    static void C21() throws Exception {
        Path dir = Files.createTempDirectory("race"); String cf = dir.resolve("cases").toString(), rf = dir.resolve("bad").toString();
        try {
            Files.write(Path.of(cf), raceCases());
            long half = (deadline - System.nanoTime()) / 2; long lim = System.nanoTime() + half;
            for (int k = 0; k < 4 || System.nanoTime() < lim && k < 300; k++) {
                Path o = dir.resolve("o");
                boolean slow = k % 3 == 1;     // interpreted code reads its fields as often as they are written down, and is slow enough to meet the other threads
                Process p = new ProcessBuilder(System.getProperty("java.home") + "/bin/java", slow ? "-Xint" : "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-Xmx600m", "-cp", System.getProperty("java.class.path"), "Race", cf, slow ? "700" : "150", "" + R.nextInt(1000000), slow ? "long" : "fresh", rf).redirectErrorStream(true).redirectOutput(o.toFile()).start();
                int rc = p.waitFor(); String t = Files.readString(o);
                for (String l : t.split("\n")) if (l.startsWith("DONE")) { cases += Long.parseLong(l.substring(5)); compared += Long.parseLong(l.substring(5)); }
                if (rc == 1) throw new Bad(Files.readAllLines(Path.of(rf)).toArray(new String[0]));
                if (rc != 0) throw new IllegalStateException("race run: " + t);
            }
            lim = System.nanoTime() + (deadline - System.nanoTime()) / 2;
            for (int k = 0; k < 3 || System.nanoTime() < lim && k < 400; k++) { String[] b = Race.firstsAnew(cf, R.nextLong()); cases += 72; compared += 72; if (b != null) throw new Bad(b); }
            List<Race.Case> cs = Race.read(cf);
            int k = 0; do { String[] b = Race.run(cs, 1500, R.nextInt(1000000), k++ % 4 == 3); cases = Math.max(cases, 0); if (b != null) throw new Bad(b); } while (!late());
            cases += Race.done.get(); compared += Race.done.get();
        } finally { for (File f : dir.toFile().listFiles()) f.delete(); dir.toFile().delete(); }
    }

    static void replay(String file) throws Exception {
        Map<String, String> kv = new LinkedHashMap<>();
        for (String l : Files.readAllLines(Path.of(file))) { int i = l.indexOf('='); if (i > 0) kv.put(l.substring(0, i), l.substring(i + 1)); }
        if (kv.containsKey("locale")) Locale.setDefault(Locale.forLanguageTag(kv.get("locale").replace('_', '-')));
        String x = (String) Val.read(kv.get("expression")), df = kv.get("default") == null ? null : (String) Val.read(kv.get("default"));
        for (String y : x.contains("; ") ? x.split("; ") : new String[] {x}) {
            if (kv.containsKey("data")) { @SuppressWarnings("unchecked") Map<String, Object> d = (Map<String, Object>) Val.read(kv.get("data")); out.println(y + "  =>  " + lib(kv.get("evaluator").charAt(0) == 'a' ? 'A' : 'B', y, d, df)); }
            else out.println(y + "  =>  " + ptree(parser, y, df, df == null));
        }
        out.println("required: " + kv.get("required")); out.println("observed when found: " + kv.get("observed"));
    }
    public static void main(String[] a) throws Exception {
        System.setErr(new PrintStream(OutputStream.nullOutputStream()));
        if (a[0].equals("replay")) { replay(a[1]); return; }
        R = new Random(Long.parseLong(a[1]) * 7919 + a[0].hashCode()); deadline = System.nanoTime() + (long) (Double.parseDouble(a[2]) * 1e9);
        List<Object> hints = new ArrayList<>(); if (!a[3].equals("-")) for (String l : Files.readAllLines(Path.of(a[3]))) try { hints.add(Val.read(l)); } catch (RuntimeException e) { }
        pools(hints); String mf = System.getProperty("mined"); if (mf != null) mined(mf);
        int rc = 0;
        try {
            try { Harness.class.getDeclaredMethod(a[0]).invoke(null); }
            catch (java.lang.reflect.InvocationTargetException e) { if (e.getCause() instanceof Bad b) throw b; throw e; }
        } catch (Bad b) { rc = 1; Files.write(Path.of(a[4]), b.lines); out.println("BAD " + String.join(" ; ", b.lines)); }
        out.println("STATS " + cases + " " + compared);
        System.exit(rc);
    }
}
