import java.math.*;
import java.time.*;
import java.time.format.*;
import java.util.*;
import java.util.stream.*;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** The reference semantics: an executable reading of the properties, independent of the library's code (it shares only the JDK's and Maven's types). */
public class Ref {
    // ------------------------------------------------------------------ expressions
    public interface E {}
    public record Lit(String dt, Object v, String text) implements E {}
    public record Fld(String name) implements E {}
    public record Bin(String op, E l, E r) implements E {}       // AND OR, comparators, arithmetic
    public record Un(String op, E e) implements E {}             // NOT, UNARY
    public record Fn(String name, List<E> args) implements E {}
    public record In(String field, boolean not, List<E> items) implements E {}
    public record Arr(String field, String op, List<E> items) implements E {}
    public record Rng(String field, Lit lo, Lit hi) implements E {}

    public static class Fail extends RuntimeException { public Fail(String m) { super(m, null, false, false); } }
    public static class Unspec extends RuntimeException { public Unspec(String m) { super(m, null, false, false); } }
    /** a boolean for which a failure is accepted as well */
    public static class LenientB extends RuntimeException { final boolean b; public LenientB(boolean b) { super("lenient", null, false, false); this.b = b; } }

    static final Map<String, String> SYM = new LinkedHashMap<>();
    static { String[] t = {"=", "EQUALS", "!=", "NOT_EQUAL", ">", "GREATER_THAN", ">=", "GREATER_THAN_EQUAL", "<", "LESS_THAN", "<=", "LESS_THAN_EQUAL", "+", "ADD", "-", "SUBTRACT", "*", "MULTIPLY", "/", "DIVIDE", "%", "MODULUS", "^", "EXPONENT"};
        for (int i = 0; i < t.length; i += 2) SYM.put(t[i], t[i + 1]); }
    static final Set<String> CMP = Set.of("=", "!=", ">", ">=", "<", "<=");

    // ------------------------------------------------------------------ values
    static final DateTimeFormatter DF = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT), TF = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
    static LocalDate date(String s) { if (!s.matches("\\d{4}-\\d\\d-\\d\\d")) return null; try { return LocalDate.parse(s, DF); } catch (DateTimeException e) { return null; } }
    static LocalDateTime dtime(String s) { if (!s.matches("\\d{4}-\\d\\d-\\d\\d \\d\\d:\\d\\d:\\d\\d")) return null; try { return LocalDateTime.parse(s, TF); } catch (DateTimeException e) { return null; } }
    static BigDecimal dec(String s) { try { return new BigDecimal(s); } catch (NumberFormatException e) { return null; } }
    public static String dt(Object v) {
        if (v instanceof Amb a && a.sure) return "INTEGER";
        if (v instanceof Boolean) return "BOOLEAN";
        if (v instanceof Float || v instanceof Double || v instanceof BigDecimal) return "DECIMAL";
        if (v instanceof Integer) return "INTEGER";
        if (v instanceof Long) return "LONG";
        if (v instanceof ComparableVersion) return "VERSION";
        if (v instanceof LocalDate) return "DATE";
        if (v instanceof LocalDateTime) return "DATETIME";
        if (v instanceof String s) { if (dtime(s) != null) return "DATETIME"; if (date(s) != null) return "DATE"; }
        return "STRING";
    }
    /** the number a value is or its text spells, else null */
    public static BigDecimal nm(Object v) {
        if (v instanceof BigDecimal b) return b;
        if (v instanceof Integer || v instanceof Long) return BigDecimal.valueOf(((Number) v).longValue());
        if (v instanceof Boolean || v instanceof LocalDate || v instanceof LocalDateTime || v instanceof Collection || v instanceof Object[] || v instanceof Map) return null;
        return dec(v.toString());
    }
    static boolean isNum(Object v) { String d = dt(v); return (d.equals("INTEGER") || d.equals("LONG") || d.equals("DECIMAL")) && nm(v) != null; }
    static boolean isInt(Object v) { return v instanceof Integer || v instanceof Long || v instanceof Amb a && a.sure; }
    static final Map<String, Integer> PRIO = Map.of("STRING", 8, "DATETIME", 7, "DATE", 6, "DECIMAL", 5, "LONG", 4, "INTEGER", 3, "VERSION", 2, "BOOLEAN", 1);
    static final Set<String> NUMFLAG = Set.of("INTEGER", "LONG", "DECIMAL", "VERSION");
    static final BigInteger MINL = BigInteger.valueOf(Long.MIN_VALUE), MAXL = BigInteger.valueOf(Long.MAX_VALUE);
    static boolean inLong(BigInteger b) { return b.compareTo(MINL) >= 0 && b.compareTo(MAXL) <= 0; }
    static boolean inLong(BigDecimal b) { return b.precision() - (long) b.scale() <= 20 && inLong(b.toBigInteger()); }
    static boolean whole(BigDecimal b) { return b.signum() == 0 || b.scale() <= 0 || b.stripTrailingZeros().scale() <= 0; }

    @SuppressWarnings({"unchecked", "rawtypes"})
    static Comparable conv(String t, Object v) {
        String s = v.toString();
        switch (t) {
            case "DECIMAL": return nm(v);
            case "INTEGER": case "LONG": { BigDecimal b = nm(v); if (b == null || !whole(b) || !inLong(b)) return null; if (t.equals("INTEGER") && b.longValue() != (int) b.longValue()) return null; return b; }
            case "VERSION": return new ComparableVersion(s);
            case "STRING": return s;
            case "BOOLEAN": return v instanceof Boolean b ? b : s.equalsIgnoreCase("true") ? Boolean.TRUE : s.equalsIgnoreCase("false") ? Boolean.FALSE : null;
            case "DATE": return v instanceof LocalDate d ? d.atStartOfDay() : date(s) == null ? null : date(s).atStartOfDay();
            case "DATETIME": return v instanceof LocalDateTime d ? d : dtime(s);
        }
        throw new IllegalStateException(t);
    }
    static boolean nonfinite(Object v) { return dt(v).equals("DECIMAL") && nm(v) == null; }
    static boolean compare(String op, Object l, Object r) { if (nonfinite(l)) throw new Fail("not a finite number"); return compareRaw(op, l, r); }
    @SuppressWarnings({"unchecked", "rawtypes"})
    static boolean compareRaw(String op, Object l, Object r) {
        if (!isNum(l) || !isNum(r)) { known(l, r); if (!op.equals("=") && !op.equals("!=") && (l instanceof Amb || r instanceof Amb)) throw new Unspec("Integer or Long"); if ((dt(l).equals("VERSION") || dt(r).equals("VERSION")) && (l instanceof Amb || r instanceof Amb)) throw new Unspec("Integer or Long"); }
        String a = dt(l), b = dt(r);
        boolean eq = op.equals("=") || op.equals("!=");
        String mx = PRIO.get(a) > PRIO.get(b) ? a : b, t = mx;
        if (!eq) {
            if (a.equals("BOOLEAN") || b.equals("BOOLEAN")) throw new Fail("ordering of booleans");
            boolean na = NUMFLAG.contains(a), nb = NUMFLAG.contains(b);
            t = na && !nb ? a : nb && !na ? b : mx;
        }
        Comparable x = conv(t, l), y = conv(t, r);
        if (x == null || y == null) throw new Fail("no common kind");
        int c = x.compareTo(y);
        switch (op) { case "=": return c == 0; case "!=": return c != 0; case ">": return c > 0; case ">=": return c >= 0; case "<": return c < 0; default: return c <= 0; }
    }

    // ------------------------------------------------------------------ results of the arithmetic evaluator
    /** a required result: exact (this very value), or a number of that value; whole: an Integer or Long when it is integral and in range */
    public record Res(Object exact, BigDecimal num, boolean whole) {
        boolean holds(Object v) {
            if (v == null) return false;
            if (num == null) return exact.getClass() == v.getClass() && exact.equals(v);
            BigDecimal n = isNum(v) ? nm(v) : null;
            if (n == null || n.compareTo(num) != 0) return false;
            return !whole || !Ref.whole(num) || !inLong(num) || isInt(v);
        }
        Object value() { if (num == null) return exact; if (whole && Ref.whole(num) && inLong(num)) { long x = num.longValueExact(); return x == (int) x ? new Amb(num.setScale(0), true) : (Object) x; } return new Amb(num, false); }
        public String toString() { return num == null ? Val.show(exact) : "number " + num + (whole ? " (whole kind)" : ""); }
    }
    /** a number whose value is known but not its kind or its printed form; sure: an Integer or a Long, either of them */
    static class Amb extends BigDecimal { final boolean sure; Amb(BigDecimal b, boolean sure) { super(b.unscaledValue(), b.scale()); this.sure = sure; } boolean maybeInt() { return Ref.whole(this) && inLong(this); } }
    static boolean amb(Object v) { return v instanceof Amb a && !a.sure; }
    static boolean maybeInt(Object v) { return isInt(v) || v instanceof Amb a && a.maybeInt(); }
    static void known(Object... vs) { for (Object v : vs) if (amb(v)) throw new Unspec("depends on the kind or printed form of a computed number"); }
    static Res val(Object v) { return new Res(v, null, false); }
    static Res num(BigDecimal b, boolean whole) { return new Res(null, b, whole); }
    static Res integral(BigInteger b) { if (!inLong(b)) throw new Fail("overflow"); return num(new BigDecimal(b), true); }
    static BigDecimal truncDiv(BigDecimal a, BigDecimal b, int k) { return a.divide(b, k, RoundingMode.DOWN); }

    static Res arith(String op, Object l, Object r) {
        String a = dt(l);
        if (op.equals("UNARY")) {
            if (!isNum(l)) throw new Fail("not a number");
            if (amb(l) && maybeInt(l) && !inLong(nm(l).negate())) known(l);
            return isInt(l) ? integral(nm(l).toBigInteger().negate()) : num(nm(l).negate(), false);
        }
        String b = dt(r);
        if (op.equals("+")) {
            Set<String> joins = Set.of("STRING", "VERSION", "BOOLEAN"), dates = Set.of("DATE", "DATETIME");
            if (joins.contains(a) || joins.contains(b)) {
                if (dates.contains(a) || dates.contains(b)) throw new Fail("a date");
                if (nonfinite(l) || nonfinite(r)) throw new Fail("not finite");
                known(l, r);
                return val(l.toString() + r.toString());
            }
        }
        if (!isNum(l) || !isNum(r)) throw new Fail("not a number");
        if (op.equals("%") && maybeInt(l) && maybeInt(r)) known(l, r);
        if (op.equals("%") && !(isInt(l) && isInt(r))) throw new Fail("not an integer");
        BigDecimal x = nm(l), y = nm(r);
        boolean ints = isInt(l) && isInt(r);
        switch (op) {
            case "+": case "-": case "*": {
                BigDecimal z = op.equals("+") ? x.add(y) : op.equals("-") ? x.subtract(y) : x.multiply(y);
                if (!ints && maybeInt(l) && maybeInt(r) && !inLong(z)) known(l, r);
                return ints ? integral(z.toBigIntegerExact()) : num(z, false);
            }
            case "/": if (y.signum() == 0) throw new Fail("division by zero"); return num(truncDiv(x, y, 3), true);
            case "%": if (y.signum() == 0) throw new Fail("modulus by zero"); return integral(x.toBigInteger().remainder(y.toBigInteger()));
            case "^": {
                double d = Math.pow(x.doubleValue(), y.doubleValue());
                if (Double.isNaN(d) || Double.isInfinite(d)) throw new Fail("not finite");
                return num(new BigDecimal(d), false);
            }
        }
        throw new IllegalStateException(op);
    }
    static Res function(String t, List<Object> fl) {
        if (fl.isEmpty()) throw new Fail("no arguments");
        if (t.equals("LEN")) {
            for (Object v : fl) if (nonfinite(v)) throw new Unspec("LEN of no number");
            if (fl.size() > 1) return val(fl.size());
            if (!(fl.get(0) instanceof String s)) throw new Unspec("LEN of a single value");
            return val(s.length());
        }
        if (t.equals("DAYS_ELAPSED")) {
            if (fl.size() != 1 || !dt(fl.get(0)).equals("DATE")) throw new Fail("no date");
            Object v = fl.get(0); LocalDate d = v instanceof LocalDate x ? x : date((String) v);
            return num(BigDecimal.valueOf(LocalDate.now().toEpochDay() - d.toEpochDay()), true);
        }
        if (t.equals("INT") && fl.size() != 1) throw new Fail("one argument");
        for (Object v : fl) if (!isNum(v)) throw new Fail("not a number");
        List<BigDecimal> r = fl.stream().map(Ref::nm).collect(Collectors.toList());
        BigDecimal n = BigDecimal.valueOf(r.size());
        switch (t) {
            case "SUM": case "AVG": case "MEAN": {
                boolean ints = fl.stream().allMatch(Ref::isInt), may = !ints && fl.stream().allMatch(Ref::maybeInt); BigDecimal s = BigDecimal.ZERO;
                for (BigDecimal x : r) { s = s.add(x); if (ints && !inLong(s)) throw new Fail("overflow"); if (may && !inLong(s)) known(fl.toArray()); }
                return t.equals("SUM") ? num(s, true) : num(truncDiv(s, n, 3), true);
            }
            case "MIN": return num(r.stream().min(Comparator.naturalOrder()).get(), true);
            case "MAX": return num(r.stream().max(Comparator.naturalOrder()).get(), true);
            case "INT": return num(r.get(0).setScale(0, RoundingMode.DOWN), true);
            case "MEDIAN": {
                List<BigDecimal> s = new ArrayList<>(r); s.sort(Comparator.naturalOrder()); int k = s.size();
                return num(k % 2 == 1 ? s.get(k / 2) : truncDiv(s.get(k / 2).add(s.get(k / 2 - 1)), BigDecimal.valueOf(2), 2), true);
            }
            case "MODE": {
                BigDecimal best = null; int bc = 0; TreeMap<BigDecimal, Integer> cnt = new TreeMap<>();
                for (BigDecimal x : r) { int c = cnt.merge(x, 1, Integer::sum); if (c > bc) { bc = c; best = x; } }
                return num(best, false);
            }
        }
        throw new Unspec("function " + t);
    }

    // ------------------------------------------------------------------ evaluation
    static Object lookup(Map<String, Object> m, String name) {
        if (name == null) throw new Fail("no name");
        Object cur = m;
        for (String p : name.split("\\.", -1)) { if (p.isEmpty()) throw new Unspec("empty part of a name"); if (!(cur instanceof Map)) return null; cur = ((Map<?, ?>) cur).get(p); if (cur == null) return null; }
        return cur;
    }
    static Object need(Object v) { if (v == null) throw new Fail("missing"); return v; }
    static boolean isNullWord(E e) { return e instanceof Fld f && f.name() != null && f.name().equalsIgnoreCase("null"); }
    static boolean isArith(E e) { return e instanceof Fld || e instanceof Lit || e instanceof Fn || e instanceof Un u && u.op().equals("UNARY") || e instanceof Bin b && SYM.containsKey(b.op()) && !CMP.contains(b.op()); }
    static Object operand(E e, Map<String, Object> d) {
        if (e instanceof Fld f) return lookup(d, f.name());
        if (isArith(e)) return arithV(e, d);
        return evalB(e, d);
    }
    static Object item(E e, Map<String, Object> d) { return isArith(e) ? arithV(e, d) : (Object) evalB(e, d); }
    static List<Object> flatten(List<Object> vs) {
        List<Object> out = new ArrayList<>();
        for (Object v : vs) if (v instanceof Collection<?> c) { for (Object x : c) { if (x == null) throw new Unspec("null in a collection"); out.add(x); } } else out.add(v);
        return out;
    }
    static List<Object> items(List<E> es, Map<String, Object> d) { List<Object> out = new ArrayList<>(); for (E e : es) out.add(item(e, d)); return flatten(out); }

    public static boolean evalB(E e, Map<String, Object> d) {
        if (e instanceof Bin b && b.op().equals("AND")) return evalB(b.l(), d) && evalB(b.r(), d);
        if (e instanceof Bin b && b.op().equals("OR")) return evalB(b.l(), d) || evalB(b.r(), d);
        if (e instanceof Un u && u.op().equals("NOT")) {
            if (u.e() instanceof Lit l && !(l.v() instanceof Boolean)) throw new Unspec("NOT of a literal");
            return !evalB(u.e(), d);
        }
        if (e instanceof Fld f) { Object v = need(lookup(d, f.name())); if (!(v instanceof Boolean)) throw new Fail("not a boolean"); return (Boolean) v; }
        if (e instanceof Lit l) { if (l.v() instanceof Boolean v) return v; throw new Unspec("a literal that is not a boolean, as a boolean operand"); }
        if (e instanceof Bin b && CMP.contains(b.op())) {
            boolean ln = isNullWord(b.l()), rn = isNullWord(b.r()), eq = b.op().equals("=") || b.op().equals("!=");
            if (eq && (ln || rn)) return (operand(ln ? b.r() : b.l(), d) != null) == b.op().equals("!=");
            if (ln || rn) { if (operand(b.l(), d) != null && operand(b.r(), d) != null) throw new Unspec("a field of the name null"); throw new Fail("ordering against null"); }
            Object l = need(operand(b.l(), d)), r = need(operand(b.r(), d));
            return compare(b.op(), l, r);
        }
        if (e instanceof Rng g) {
            Object v = need(lookup(d, g.field()));
            boolean a = compare(">=", v, g.lo().v()), b;
            try { b = compare("<=", v, g.hi().v()); } catch (Fail f) { if (a) throw f; throw new LenientB(false); }
            return a && b;
        }
        if (e instanceof In i) {
            Object v = need(lookup(d, i.field())); List<Object> q = items(i.items(), d);
            if (nonfinite(v)) { if (q.isEmpty()) throw new Unspec("not a number, in an empty list"); throw new Fail("not finite"); }
            boolean r = false;
            for (Object x : q) if (compareRaw("=", v, x)) { r = true; break; }
            return r != i.not();
        }
        if (e instanceof Arr a) {
            Object v = need(lookup(d, a.field())); List<Object> q = items(a.items(), d);
            if (q.size() > 1) for (Object x : q) if (x instanceof Amb) throw new Unspec("kind of a computed number");
            for (Object x : q) if (!dt(x).equals(dt(q.get(0)))) throw new Fail("elements of different kinds");
            if (!(v instanceof Collection) && !(v instanceof Object[])) throw new Fail("not a collection");
            List<Object> es = new ArrayList<>(v instanceof Object[] o ? Arrays.asList(o) : (Collection<?>) v);
            if (es.contains(null)) throw new Unspec("null in a collection");
            for (Object x : q) if (nonfinite(x)) throw new Unspec("not finite");
            boolean lenient = false, any = false, all = true;
            for (Object x : q) { boolean hit = false; for (Object y : es) try { hit |= compareRaw("=", x, y); } catch (Fail f) { lenient = true; } any |= hit; all &= hit; }
            boolean r = a.op().equals("CONTAINS_ANY") ? any : all;
            if (lenient) throw new LenientB(r);
            return r;
        }
        throw new Fail("an arithmetic expression");
    }
    static Object arithV(E e, Map<String, Object> d) { return evalA(e, d).value(); }
    public static Res evalA(E e, Map<String, Object> d) {
        if (e instanceof Fld f) return val(need(lookup(d, f.name())));
        if (e instanceof Lit l) return val(l.v());
        if (e instanceof Un u && u.op().equals("UNARY")) return arith("UNARY", arithV(u.e(), d), null);
        if (e instanceof Bin b && isArith(b)) { Object l = arithV(b.l(), d); return arith(b.op(), l, arithV(b.r(), d)); }
        if (e instanceof Fn f) {
            List<Object> vs = new ArrayList<>(); for (E x : f.args()) vs.add(arithV(x, d));
            if (f.name().equals("LEN") && vs.size() == 1 && vs.get(0) instanceof Collection<?> c) return val(c.size());
            return function(f.name(), flatten(vs));
        }
        throw new Fail("not an arithmetic expression");
    }

    // ------------------------------------------------------------------ text
    public static Lit lit(String t) {
        if (t.startsWith("'") || t.startsWith("\"")) return new Lit("STRING", t.substring(1, t.length() - 1), t);
        if (t.matches("\\d+")) { BigInteger b = new BigInteger(t); return b.bitLength() <= 31 ? new Lit("INTEGER", b.intValue(), t) : new Lit("LONG", b.longValueExact(), t); }
        if (t.matches("\\d+\\.\\d+")) return new Lit("DECIMAL", new BigDecimal(t), t);
        if (t.matches("\\d(\\.\\d+){2,}")) return new Lit("VERSION", new ComparableVersion(t), t);
        if (t.matches("TRUE|true|FALSE|false")) return new Lit("BOOLEAN", t.equalsIgnoreCase("true"), t);
        if (t.matches("\\d{4}-\\d\\d-\\d\\d")) return new Lit("DATE", date(t), t);
        if (t.matches("\\d{4}-\\d\\d-\\d\\d .*")) return new Lit("DATETIME", dtime(t), t);
        throw new IllegalStateException(t);
    }
    /** the expression as text, every operand that is not atomic in parentheses */
    public static String text(E e) {
        if (e instanceof Lit l) return l.text();
        if (e instanceof Fld f) return f.name();
        if (e instanceof Bin b) return paren(b.l()) + " " + b.op() + " " + paren(b.r());
        if (e instanceof Un u) return (u.op().equals("NOT") ? "NOT " : "-") + paren(u.e());
        if (e instanceof Fn f) return f.name() + list(f.args());
        if (e instanceof In i) return i.field() + (i.not() ? " NOT IN " : " IN ") + list(i.items());
        if (e instanceof Arr a) return a.field() + " " + a.op() + " " + list(a.items());
        Rng g = (Rng) e; return g.field() + " " + g.lo().text() + " TO " + g.hi().text();
    }
    static String paren(E e) { return e instanceof Lit || e instanceof Fld || e instanceof Fn ? text(e) : "(" + text(e) + ")"; }
    static String list(List<E> es) { return "(" + es.stream().map(Ref::text).collect(Collectors.joining(", ")) + ")"; }
    /** the tree in a canonical form */
    public static String tree(E e) {
        if (e instanceof Lit l) return l.dt() + ":" + Val.show(l.v());
        if (e instanceof Fld f) return "$" + f.name();
        if (e instanceof Bin b && (b.op().equals("AND") || b.op().equals("OR"))) return "[" + tree(b.l()) + " " + b.op() + " " + tree(b.r()) + "]";
        if (e instanceof Bin b) return (CMP.contains(b.op()) ? "(" : "{") + tree(b.l()) + " " + SYM.get(b.op()) + " " + tree(b.r()) + (CMP.contains(b.op()) ? ")" : "}");
        if (e instanceof Un u) return u.op().equals("NOT") ? "[NOT " + tree(u.e()) + "]" : "{- " + tree(u.e()) + "}";
        if (e instanceof Fn f) return f.name() + trees(f.args());
        if (e instanceof In i) { String s = i.field() + " IN" + trees(i.items()); return i.not() ? "[NOT " + s + "]" : s; }
        if (e instanceof Arr a) return a.field() + " " + a.op() + trees(a.items());
        Rng g = (Rng) e; return g.field() + " " + tree(g.lo()) + ".." + tree(g.hi());
    }
    static String trees(List<E> es) { return "<" + es.stream().map(Ref::tree).collect(Collectors.joining(",")) + ">"; }

    // ------------------------------------------------------------------ reference parser: operator precedence over a token list
    public static class Parser {
        final List<String> t; int i = 0; final String dflt;
        public Parser(List<String> t, String dflt) { this.t = t; this.dflt = dflt; }
        static final Map<String, Integer> LV = new HashMap<>();
        static { for (String c : CMP) LV.put(c, 14); LV.put("^", 12); LV.put("/", 11); LV.put("*", 10); LV.put("%", 9); LV.put("+", 8); LV.put("-", 7); LV.put("AND", 5); LV.put("OR", 5); }
        static final Map<String, String> NORM = Map.of("and", "AND", "&&", "AND", "or", "OR", "||", "OR", "not", "NOT", "in", "IN", "to", "TO", "contains_any", "CONTAINS_ANY", "contains_all", "CONTAINS_ALL");
        String norm(String s) { return NORM.getOrDefault(s, s); }
        String peek() { return i < t.size() ? norm(t.get(i)) : "<EOF>"; }
        String next() { return norm(t.get(i++)); }
        void eat(String s) { if (!next().equals(s)) throw new IllegalStateException("expected " + s); }
        public E parse() { E e = expr(0); if (i != t.size()) throw new IllegalStateException("trailing"); return e; }
        E expr(int p) {
            E l = primary();
            while (LV.containsKey(peek()) && LV.get(peek()) >= p) { String op = next(); l = new Bin(op, l, expr(LV.get(op) + 1)); }
            return l;
        }
        List<E> list() { eat("("); List<E> out = new ArrayList<>(); out.add(expr(0)); while (peek().equals(",")) { next(); out.add(expr(0)); } eat(")"); return out; }
        static final Set<String> FNS = Set.of("MIN", "MAX", "SUM", "AVG", "MEAN", "MODE", "LEN", "MEDIAN", "INT", "DAYS_ELAPSED");
        E primary() {
            String s = peek();
            if (s.equals("(")) { next(); E e = expr(0); eat(")"); return e; }
            if (s.equals("NOT")) { next(); return new Un("NOT", expr(15)); }
            if (s.equals("-")) { next(); return new Un("UNARY", expr(13)); }
            if (LV.containsKey(s) || s.equals("<EOF>") || s.equals(")") || s.equals(",")) return new Fld(dflt);
            String raw = t.get(i); next();
            if (FNS.contains(raw.toUpperCase(Locale.ROOT))) return new Fn(raw.toUpperCase(Locale.ROOT), list());
            if (raw.matches("[a-zA-Z0-9_.]*[a-zA-Z_][a-zA-Z0-9_.]*") && !raw.matches("TRUE|true|FALSE|false")) {
                String n = peek();
                if (n.equals("IN")) { next(); return new In(raw, false, list()); }
                if (n.equals("NOT")) { next(); eat("IN"); return new In(raw, true, list()); }
                if (n.startsWith("CONTAINS_")) { next(); return new Arr(raw, n, list()); }
                if (i + 1 < t.size() && norm(t.get(i + 1)).equals("TO")) { Lit a = lit(next()); eat("TO"); return new Rng(raw, a, lit(next())); }
                return new Fld(raw);
            }
            return lit(raw);
        }
    }
}
