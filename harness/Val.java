import java.math.*;
import java.time.*;
import java.util.*;
import org.apache.maven.artifact.versioning.ComparableVersion;

/** Data values as text and back, for the replay files. */
public class Val {
    static String q(String s) { StringBuilder b = new StringBuilder("\""); for (char c : s.toCharArray()) if (c == '"' || c == '\\') b.append('\\').append(c); else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c)); else b.append(c); return b.append('"').toString(); }
    public static String show(Object v) {
        if (v == null) return "null";
        if (v instanceof Boolean) return v.toString();
        if (v instanceof Integer) return "I:" + v;
        if (v instanceof Long) return "L:" + v;
        if (v instanceof Float) return "F:" + v;
        if (v instanceof Double) return "D:" + v;
        if (v instanceof BigDecimal) return "B:" + v;
        if (v instanceof BigInteger) return "G:" + v;
        if (v instanceof Short) return "s:" + v;
        if (v instanceof Byte) return "b:" + v;
        if (v instanceof ComparableVersion) return "V:" + v;
        if (v instanceof LocalDate) return "d:" + v;
        if (v instanceof LocalDateTime) return "t:" + v;
        if (v instanceof Character) return "c:" + (int) (Character) v;
        if (v instanceof String s) return q(s);
        if (v instanceof Object[] a) return "A" + seq(Arrays.asList(a));
        if (v instanceof Set<?> c) return "S" + seq(c);
        if (v instanceof Collection<?> c) return seq(c);
        if (v instanceof Map<?, ?> m) { StringJoiner j = new StringJoiner(",", "{", "}"); m.forEach((k, x) -> j.add(q(String.valueOf(k)) + "=" + show(x))); return j.toString(); }
        return "?" + v.getClass().getName() + ":" + v;
    }
    static String seq(Collection<?> c) { StringJoiner j = new StringJoiner(",", "[", "]"); for (Object x : c) j.add(show(x)); return j.toString(); }
    // ---- reading
    final String s; int i = 0;
    Val(String s) { this.s = s; }
    public static Object read(String s) { return new Val(s).val(); }
    String str() { StringBuilder b = new StringBuilder(); i++; while (s.charAt(i) != '"') { char c = s.charAt(i++); if (c == '\\') { c = s.charAt(i++); if (c == 'u') { c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; } } b.append(c); } i++; return b.toString(); }
    List<Object> list() { List<Object> l = new ArrayList<>(); i++; while (s.charAt(i) != ']') { l.add(val()); if (s.charAt(i) == ',') i++; } i++; return l; }
    Object val() {
        char c = s.charAt(i);
        if (c == '"') return str();
        if (c == '[') return list();
        if (c == 'A' && s.charAt(i + 1) == '[') { i++; return list().toArray(); }
        if (c == 'S' && s.charAt(i + 1) == '[') { i++; return new LinkedHashSet<>(list()); }
        if (c == '{') { Map<String, Object> m = new LinkedHashMap<>(); i++; while (s.charAt(i) != '}') { String k = str(); i++; m.put(k, val()); if (s.charAt(i) == ',') i++; } i++; return m; }
        int j = i; while (j < s.length() && ",]}".indexOf(s.charAt(j)) < 0) j++;
        String w = s.substring(i, j); i = j;
        switch (w) { case "null": return null; case "true": return true; case "false": return false; }
        String x = w.substring(2);
        switch (c) {
            case 'I': return Integer.valueOf(x); case 'L': return Long.valueOf(x); case 'F': return Float.valueOf(x); case 'D': return Double.valueOf(x); case 'B': return new BigDecimal(x);
            case 'G': return new BigInteger(x); case 's': return Short.valueOf(x); case 'b': return Byte.valueOf(x); case 'V': return new ComparableVersion(x);
            case 'd': return LocalDate.parse(x); case 't': return LocalDateTime.parse(x); case 'c': return (char) Integer.parseInt(x);
        }
        throw new IllegalStateException(w);
    }
}
