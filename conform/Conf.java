package conf;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.time.LocalDate;
import java.time.LocalDateTime;
import java.time.temporal.ChronoUnit;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;

/** Small methods in ordinary Java. The verifier executes each for all arguments, the JVM executes it on given ones: the two must agree.
 *  The letters behind the last underscore are the kinds of the arguments: I L D(ecimal) F(double) S B T(date) O(any) C(ollection) Q(numbers). */
public class Conf {
    // ---- machine arithmetic
    static Object add_II(Integer a, Integer b) { return a + b; }
    static Object sub_II(Integer a, Integer b) { return a - b; }
    static Object neg_I(Integer a) { return -a; }
    static Object abs_I(Integer a) { return Math.abs(a); }
    static Object absL_L(Long a) { return Math.abs(a); }
    static Object div_II(Integer a, Integer b) { return a / b; }
    static Object rem_II(Integer a, Integer b) { return a % b; }
    static Object divL_LL(Long a, Long b) { return a / b; }
    static Object remL_LL(Long a, Long b) { return a % b; }
    static Object addL_LL(Long a, Long b) { return a + b; }
    static Object subL_LL(Long a, Long b) { return a - b; }
    static Object mulc_L(Long a) { return a * 3; }
    static Object mulcI_I(Integer a) { return a * 1000; }
    static Object mix_IL(Integer a, Long b) { return a + b; }
    static Object narrow_L(Long a) { return (int) (long) a; }
    static Object narrowS_I(Integer a) { return (int) (short) (int) a; }
    static Object narrowB_I(Integer a) { return (int) (byte) (int) a; }
    static Object widen_I(Integer a) { return (long) a; }
    static Object shr1_I(Integer a) { return a >> 1; }
    static Object shl1_I(Integer a) { return a << 1; }
    static Object ushr_I(Integer a) { return a >>> 1; }
    static Object and1_I(Integer a) { return a & 1; }
    static Object xorB_BB(Boolean a, Boolean b) { return a ^ b; }
    static Object andB_BB(Boolean a, Boolean b) { return a & b; }
    static Object orB_BB(Boolean a, Boolean b) { return a | !b; }
    static Object cmp_II(Integer a, Integer b) { return a < b ? -1 : a > b ? 1 : 0; }
    static Object cmpI_II(Integer a, Integer b) { return Integer.compare(a, b); }
    static Object cmpL_LL(Long a, Long b) { return a.compareTo(b); }
    static Object addExact_II(Integer a, Integer b) { return Math.addExact(a, b); }
    static Object subExact_LL(Long a, Long b) { return Math.subtractExact(a, b); }
    static Object negExact_L(Long a) { return Math.negateExact(a); }
    static Object mulExact_L(Long a) { return Math.multiplyExact(a, 10L); }
    static Object toIntExact_L(Long a) { return Math.toIntExact(a); }
    static Object floorMod_II(Integer a, Integer b) { return Math.floorMod(a, b); }
    static Object floorDiv_II(Integer a, Integer b) { return Math.floorDiv(a, b); }
    static Object max_II(Integer a, Integer b) { return Math.max(a, b) - Math.min(a, b); }
    static Object signum_I(Integer a) { return Integer.signum(a); }
    static Object signumL_L(Long a) { return Long.signum(a); }
    static Object isNeg_L(Long a) { return a < 0 ? "neg" : "no"; }
    static Object eqBox_II(Integer a, Integer b) { return a.equals(b); }
    static Object eqBoxMixed_IL(Integer a, Long b) { return a.equals(b) || b.equals(a); }
    static Object objEq_OO(Object a, Object b) { return Objects.equals(a, b); }
    static Object eqO_OO(Object a, Object b) { return a.equals(b); }
    static Object isNull_O(Object a) { return Objects.isNull(a) || a instanceof Number; }
    static Object instance_O(Object a) { return a instanceof Number ? a instanceof Integer ? 1 : a instanceof BigDecimal ? 2 : 3 : a instanceof Comparable ? 4 : 5; }
    static Object cast_O(Object a) { return ((Number) a).intValue(); }
    static Object castS_O(Object a) { return ((String) a).length(); }
    static Object unbox_O(Object a) { return (boolean) a; }
    static Object longValue_O(Object a) { return a instanceof Number ? ((Number) a).longValue() : -1L; }
    static Object intValue_D(BigDecimal a) { return a.intValue(); }
    static Object longValueD_D(BigDecimal a) { return a.longValue(); }
    static Object number_O(Object a) { return a instanceof Number && ((Number) a).doubleValue() > 1; }
    static Object charArith_I(Integer a) { char c = (char) ('a' + (a & 7)); return c == 'c' ? 1 : (int) c; }
    static Object doubleCmp_FF(Double a, Double b) { return a < b ? 1 : a > b ? 2 : a.equals(b) ? 3 : 4; }
    static Object toInt_F(Double a) { return (int) (double) a; }
    static Object toLong_F(Double a) { return (long) (double) a; }
    static Object isInt_F(Double a) { return (int) (double) a == a; }
    static Object dcompare_FF(Double a, Double b) { return Double.compare(a, b) == 0; }
    static Object nan_F(Double a) { return a.isNaN() || a.isInfinite(); }
    static Object fromInt_I(Integer a) { return (double) a > 2.5; }
    static Object fromLong_L(Long a) { return (double) a == 9223372036854775807.0; }
    static Object decOfDouble_F(Double a) { return new BigDecimal(a); }
    static Object decValueOf_F(Double a) { return BigDecimal.valueOf(a); }
    static Object decText_F(Double a) { return new BigDecimal(a.toString()); }
    static Object decDouble_D(BigDecimal a) { return a.doubleValue() == 1.5; }
    // ---- BigDecimal
    static Object dadd_DD(BigDecimal a, BigDecimal b) { return a.add(b); }
    static Object dsub_DD(BigDecimal a, BigDecimal b) { return a.subtract(b); }
    static Object dmulc_D(BigDecimal a) { return a.multiply(new BigDecimal("2.5")); }
    static Object dneg_D(BigDecimal a) { return a.negate(); }
    static Object dabs_D(BigDecimal a) { return a.abs(); }
    static Object dcmp_DD(BigDecimal a, BigDecimal b) { return a.compareTo(b); }
    static Object deq_DD(BigDecimal a, BigDecimal b) { return a.equals(b); }
    static Object dmax_DD(BigDecimal a, BigDecimal b) { return a.max(b); }
    static Object dmin_DD(BigDecimal a, BigDecimal b) { return a.min(b); }
    static Object dscale_D(BigDecimal a) { return a.scale(); }
    static Object dsig_D(BigDecimal a) { return a.signum(); }
    static Object dstrip_D(BigDecimal a) { return a.stripTrailingZeros(); }
    static Object dstripscale_D(BigDecimal a) { return a.stripTrailingZeros().scale() <= 0; }
    static Object dset0_D(BigDecimal a) { return a.setScale(0, RoundingMode.DOWN); }
    static Object dset2_D(BigDecimal a) { return a.setScale(2, RoundingMode.DOWN); }
    static Object dsetF_D(BigDecimal a) { return a.setScale(0, RoundingMode.FLOOR); }
    static Object dsetC_D(BigDecimal a) { return a.setScale(1, RoundingMode.CEILING); }
    static Object dsetU_D(BigDecimal a) { return a.setScale(1, RoundingMode.UP); }
    static Object dsetH_D(BigDecimal a) { return a.setScale(0, RoundingMode.HALF_UP); }
    static Object dsetHD_D(BigDecimal a) { return a.setScale(0, RoundingMode.HALF_DOWN); }
    static Object dsetHE_D(BigDecimal a) { return a.setScale(0, RoundingMode.HALF_EVEN); }
    static Object dsetN_D(BigDecimal a) { return a.setScale(0); }
    static Object ddiv_D(BigDecimal a) { return a.divide(new BigDecimal(3), 3, RoundingMode.DOWN); }
    static Object ddivH_D(BigDecimal a) { return a.divide(new BigDecimal("-4"), 1, RoundingMode.HALF_UP); }
    static Object ddivZ_DD(BigDecimal a, BigDecimal b) { return a.divide(b, 3, RoundingMode.DOWN).signum(); }
    static Object dlongExact_D(BigDecimal a) { return a.longValueExact(); }
    static Object dintExact_D(BigDecimal a) { return a.intValueExact(); }
    static Object dtoBig_D(BigDecimal a) { return a.toBigInteger().signum(); }
    static Object dtoBigL_D(BigDecimal a) { return a.toBigInteger().bitLength() < 64; }
    static Object dvalueOf_L(Long a) { return BigDecimal.valueOf(a); }
    static Object dvalueOf2_L(Long a) { return BigDecimal.valueOf(a, 2); }
    static Object dnew_I(Integer a) { return new BigDecimal(a); }
    static Object dnewL_L(Long a) { return new BigDecimal(a); }
    static Object dnewS_S(String a) { return new BigDecimal(a); }
    static Object dplain_D(BigDecimal a) { return Integer.parseInt(a.stripTrailingZeros().toPlainString()); }
    static Object dplainL_D(BigDecimal a) { return Long.parseLong(a.toPlainString()); }
    static Object dround_D(BigDecimal a) { return new BigDecimal(a.toString()).equals(a); }
    static Object dmove_D(BigDecimal a) { return a.movePointRight(2).compareTo(BigDecimal.ONE); }
    static Object drem_D(BigDecimal a) { return a.remainder(BigDecimal.ONE).signum() == 0; }
    static Object dunscaled_D(BigDecimal a) { return a.unscaledValue().signum(); }
    static Object dprec_D(BigDecimal a) { return a.precision() > 18; }
    static Object dpow_D(BigDecimal a) { return a.pow(2).compareTo(a); }
    static Object bigAdd_LL(Long a, Long b) { BigInteger s = BigInteger.valueOf(a).add(BigInteger.valueOf(b)); return s.bitLength() > 63 ? "big" : (Object) s.longValue(); }
    static Object bigExact_LL(Long a, Long b) { return BigInteger.valueOf(a).subtract(BigInteger.valueOf(b)).longValueExact(); }
    static Object bigCmp_LI(Long a, Integer b) { return BigInteger.valueOf(a).negate().compareTo(BigInteger.valueOf(b)); }
    // ---- text
    static Object parseInt_S(String a) { return Integer.parseInt(a); }
    static Object parseLong_S(String a) { return Long.parseLong(a); }
    static Object valueOfInt_S(String a) { try { return Integer.valueOf(a); } catch (NumberFormatException e) { return "no"; } }
    static Object parseBool_S(String a) { return Boolean.parseBoolean(a); }
    static Object len_S(String a) { return a.length(); }
    static Object empty_S(String a) { return a.isEmpty(); }
    static Object eqs_SS(String a, String b) { return a.equals(b); }
    static Object eqi_SS(String a, String b) { return a.equalsIgnoreCase(b); }
    static Object cmps_SS(String a, String b) { return Integer.signum(a.compareTo(b)); }
    static Object lower_S(String a) { return a.toLowerCase(Locale.ROOT).equals("true"); }
    static Object upper_S(String a) { return a.toUpperCase(Locale.ROOT).equals("TRUE"); }
    static Object starts_S(String a) { return a.startsWith("a") && a.endsWith("b"); }
    static Object containsS_S(String a) { return a.contains("."); }
    static Object indexOf_S(String a) { return a.indexOf('.') >= 0 ? 1 : 0; }
    static Object charAt_S(String a) { return a.charAt(0) == 'a'; }
    static Object sub1_S(String a) { return a.substring(1).length(); }
    static Object sub2_S(String a) { return a.substring(1, a.length() - 1).length(); }
    static Object trim_S(String a) { return a.trim().isEmpty(); }
    static Object split_S(String a) { return a.split("\\.").length; }
    static Object split0_S(String a) { return a.split("\\.")[0].equals("a"); }
    static Object joinS_S(String a) { String[] p = a.split("\\."); return p.length > 1 ? String.join(".", Arrays.copyOfRange(p, 1, p.length)).equals("b") : false; }
    static Object joinStream_S(String a) { String[] p = a.split("\\."); return p.length > 1 ? Arrays.stream(p).skip(1).collect(Collectors.joining(".")).equals("b.c") : false; }
    static Object concat_SS(String a, String b) { return (a + b).length(); }
    static Object concatI_I(Integer a) { return ("" + a).equals(String.valueOf(a)); }
    static Object concatN_O(Object a) { return (a + "x").length() > 0; }
    static Object concatEq_SI(String a, Integer b) { return (a + b).equals(a.concat(b.toString())); }
    static Object sb_SS(String a, String b) { return new StringBuilder(a).append(b).append(1).toString().equals(a + b + "1"); }
    static Object switchS_S(String a) { switch (a) { case "a": return 1; case "ab": return 2; case "true": return 3; default: return 0; } }
    static Object hashEq_SS(String a, String b) { return a.hashCode() == b.hashCode() || !a.equals(b); }
    static Object toStr_O(Object a) { return a.toString().equals(String.valueOf(a)); }
    static Object strOfBool_B(Boolean a) { return a.toString().equals("true") == a; }
    static Object numText_O(Object a) { try { return new BigDecimal(a.toString()).signum(); } catch (Exception e) { return "none"; } }
    static Object toStrD_D(BigDecimal a) { return new BigDecimal(a.toPlainString()).compareTo(a); }
    static Object format_SI(String a, Integer b) { return String.format("%s-%s", a, b).length() > 0; }
    // ---- dates
    static Object date_S(String a) { return LocalDate.parse(a).getDayOfYear() > 0; }
    static Object dateCmp_TT(LocalDate a, LocalDate b) { return Integer.signum(a.compareTo(b)); }
    static Object dateAfter_TT(LocalDate a, LocalDate b) { return a.isAfter(b) ? 1 : a.isBefore(b) ? -1 : a.isEqual(b) ? 0 : 9; }
    static Object days_TT(LocalDate a, LocalDate b) { return ChronoUnit.DAYS.between(a, b); }
    static Object until_TT(LocalDate a, LocalDate b) { return a.until(b, ChronoUnit.DAYS); }
    static Object epoch_T(LocalDate a) { return a.toEpochDay(); }
    static Object startOf_T(LocalDate a) { return a.atStartOfDay().toLocalDate().equals(a); }
    static Object dateEq_TO(LocalDate a, Object b) { return a.equals(b); }
    static Object plus_T(LocalDate a) { return a.plusDays(1); }
    static Object minus_T(LocalDate a) { return a.minusDays(7).toEpochDay(); }
    // ---- control flow
    static Object tryFin_I(Integer a) { int x = 0; try { if (a == 0) throw new IllegalStateException(); x = 1; } catch (IllegalStateException e) { x = 2; } finally { x += 10; } return x; }
    static Object finRet_I(Integer a) { try { return 10 / a; } catch (ArithmeticException e) { return -1; } finally { a = 5; } }
    static Object nested_I(Integer a) { try { try { return 10 / a; } finally { if (a > 5) throw new IllegalArgumentException("x"); } } catch (IllegalArgumentException e) { return 7; } }
    static Object multi_O(Object a) { try { return ((String) a).substring(2).length(); } catch (ClassCastException | IndexOutOfBoundsException e) { return e instanceof ClassCastException ? 1 : 2; } }
    static Object rethrow_I(Integer a) { try { return 1 / a; } catch (RuntimeException e) { throw new IllegalStateException(e); } }
    static Object loop_I(Integer a) { int s = 0; for (int i = 0; i < 5; i++) { if (i == a) continue; if (s > 6) break; s += i; } return s; }
    static Object label_I(Integer a) { int n = 0; outer: for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { if (i * j == a) break outer; n++; } return n; }
    static Object doWhile_I(Integer a) { int n = 0; do { n++; } while (n < 3 && n != a); return n; }
    static Object tern_BI(Boolean a, Integer b) { return a ? b : (Object) "x"; }
    static Object sw_I(Integer a) { switch (a) { case 0: return "z"; case 1: case 2: return "s"; case -7: return "m"; default: return "d"; } }
    enum Col { RED, GREEN, BLUE { @Override int w() { return 9; } }; int w() { return ordinal(); } static Col of(int i) { return values()[Math.floorMod(i, 3)]; } }
    static Object enumSw_I(Integer a) { switch (Col.of(a & 3)) { case RED: return 1; case BLUE: return 2; default: return 3; } }
    static Object enumW_I(Integer a) { Col c = (a & 1) == 0 ? Col.RED : Col.BLUE; return c.w() + c.name().length() + c.compareTo(Col.GREEN); }
    static Object enumVal_S(String a) { try { return Col.valueOf(a).ordinal(); } catch (IllegalArgumentException e) { return -1; } }
    static Object enumMap_I(Integer a) { EnumMap<Col, Integer> m = new EnumMap<>(Col.class); m.put(Col.RED, a); m.put(Col.BLUE, 2); return m.getOrDefault(Col.RED, 0) + m.size() + (m.get(Col.GREEN) == null ? 1 : 0); }
    static Object arr_I(Integer a) { int[] x = new int[3]; x[1] = a; int s = 0; for (int v : x) s += v; return s + x.length; }
    static Object arrIdx_I(Integer a) { Object[] x = {1, "b", 3L}; return x[a]; }
    static Object arr2_I(Integer a) { int[][] x = {{1, 2}, {3, 4}}; return x[1][a & 1]; }
    static Object npe_I(Integer a) { String s = a > 0 ? "x" : null; return s.length(); }
    static Object npeUnbox_I(Integer a) { Integer b = a > 0 ? a : null; return b + 1; }
    static class Acc { int n; Object last; final List<Object> all = new ArrayList<>(); Acc put(Object o) { n++; last = o; all.add(o); return this; } }
    static Object obj_OO(Object a, Object b) { Acc x = new Acc().put(a).put(b); return x.n == 2 && x.last == b && x.all.get(0) == a ? x.last : "bad"; }
    interface Shape { default int area() { return 1; } }
    static class Sq implements Shape { }
    static class Rect implements Shape { final int w; Rect(int w) { this.w = w; } @Override public int area() { return w + 1; } }
    static Object dispatch_I(Integer a) { Shape s = a > 3 ? new Rect(3) : new Sq(); return s.area(); }
    static int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
    static Object recurse_B(Boolean a) { return fib(a ? 6 : 5); }
    static Object varargs_II(Integer a, Integer b) { return Arrays.asList(a, b).size() + Stream.of(a, b).mapToInt(Integer::intValue).max().getAsInt(); }
    // ---- functions, optionals
    static Object opt_O(Object a) { return Optional.ofNullable(a).map(x -> x instanceof Number ? x : null).isPresent(); }
    static Object optElse_I(Integer a) { return Optional.of(a).filter(x -> x > 2).map(x -> x - 1).orElse(-9); }
    static Object optGet_I(Integer a) { return Optional.of(a).filter(x -> x != 0).get(); }
    static Object optThrow_I(Integer a) { return Optional.of(a).filter(x -> x < 5).orElseThrow(() -> new IllegalStateException("no")); }
    static Object optFlat_II(Integer a, Integer b) { Optional<Integer> o = Optional.of(b); return Optional.of(a).flatMap(x -> o.map(x::compareTo).map(c -> c == 0)).orElse(false); }
    static Object optIf_I(Integer a) { int[] r = {0}; Optional.of(a).filter(x -> x > 0).ifPresent(x -> r[0] = x); return r[0]; }
    static Object optNull_B(Boolean a) { return Optional.of(a ? null : (Object) 1); }
    static Object fun_II(Integer a, Integer b) { BiFunction<Integer, Integer, Integer> f = Math::max; Function<Integer, Integer> g = x -> x + 1; Supplier<Integer> s = () -> b; return f.andThen(g).apply(a & 15, s.get() & 15); }
    static Object pred_I(Integer a) { Predicate<Integer> p = x -> x > 0; return p.negate().or(x -> x == 7).test(a); }
    // ---- lists of known size
    static Object listOps_III(Integer a, Integer b, Integer c) { List<Integer> l = new ArrayList<>(Arrays.asList(a, b)); l.add(c); l.remove(0); l.set(0, c); return l.size() + (l.get(0).equals(l.get(1)) ? 10 : 0) + (l.contains(b) ? 100 : 0); }
    static Object sort_III(Integer a, Integer b, Integer c) { List<Integer> l = Arrays.asList(a, b, c); Collections.sort(l); return l.get(1); }
    static Object sortD_DD(BigDecimal a, BigDecimal b) { List<BigDecimal> l = new ArrayList<>(Arrays.asList(a, b)); l.sort(Comparator.reverseOrder()); return l.get(0); }
    static Object streamSum_III(Integer a, Integer b, Integer c) { return Stream.of(a, b, c).mapToInt(x -> x).sum(); }
    static Object streamMax_DD(BigDecimal a, BigDecimal b) { return Stream.of(a, b).max(Comparator.naturalOrder()).get(); }
    static Object streamMin_DD(BigDecimal a, BigDecimal b) { return Stream.of(a, b).min(BigDecimal::compareTo).get(); }
    static Object cmax_DD(BigDecimal a, BigDecimal b) { return Collections.max(Arrays.asList(a, b)); }
    static Object cmin_DD(BigDecimal a, BigDecimal b) { return Collections.min(Arrays.asList(a, b)); }
    static Object distinct_III(Integer a, Integer b, Integer c) { return Stream.of(a, b, c).distinct().count(); }
    static Object set_DD(BigDecimal a, BigDecimal b) { return new HashSet<>(Arrays.asList(a, b)).size(); }
    static Object tset_DD(BigDecimal a, BigDecimal b) { return new TreeSet<>(Arrays.asList(a, b)).size(); }
    static Object map_III(Integer a, Integer b, Integer c) { Map<Integer, Integer> m = new HashMap<>(); m.put(a, 1); m.put(b, 2); m.merge(c, 5, Integer::sum); return m.get(a) + 10 * m.size(); }
    static Object mapAbs_II(Integer a, Integer b) { Map<Integer, String> m = new LinkedHashMap<>(); m.put(a, "a"); m.putIfAbsent(b, "b"); m.computeIfAbsent(3, k -> "c"); return m.containsKey(3) && m.get(b) != null ? m.get(b) : "?"; }
    static Object mapIter_II(Integer a, Integer b) { Map<String, Integer> m = new LinkedHashMap<>(); m.put("x", a); m.put("y", b); int s = 0; for (Map.Entry<String, Integer> e : m.entrySet()) s = s - e.getValue() + (e.getKey().equals("y") ? 1 : 0); return s; }
    static Object group_III(Integer a, Integer b, Integer c) { return Stream.of(a, b, c).collect(Collectors.groupingBy(x -> x, Collectors.counting())).get(a); }
    static Object skipLimit_III(Integer a, Integer b, Integer c) { return Stream.of(a, b, c).skip(1).findFirst().get(); }
    static Object immut_I(Integer a) { List<Integer> l = Collections.singletonList(a); l.add(1); return l.size(); }
    static Object immut2_I(Integer a) { List<Integer> l = Arrays.asList(a, 2); l.set(0, 9); return l.get(0) + l.size(); }
    static Object immut3_I(Integer a) { List<Integer> l = Collections.unmodifiableList(new ArrayList<>(Arrays.asList(a))); l.add(1); return 0; }
    static Object iter_II(Integer a, Integer b) { Iterator<Integer> i = Arrays.asList(a, b).iterator(); int s = 0; while (i.hasNext()) { int v = i.next(); s = v > s ? v : s; } return s; }
    static Object subList_III(Integer a, Integer b, Integer c) { return Arrays.asList(a, b, c).subList(1, 3).indexOf(c); }
    static Object listEq_II(Integer a, Integer b) { return Arrays.asList(a, b).equals(Arrays.asList(b, a)); }
    static Object deque_II(Integer a, Integer b) { Deque<Integer> d = new ArrayDeque<>(); d.push(a); d.push(b); return d.pop() - d.peek(); }
    static Object reduceI_III(Integer a, Integer b, Integer c) { return Stream.of(a, b, c).reduce(0, Math::addExact); }
    static Object anyAll_II(Integer a, Integer b) { return Stream.of(a, b).anyMatch(x -> x > 5) && !Stream.of(a, b).allMatch(x -> x > 0) || Stream.of(a, b).noneMatch(x -> x == 7); }
    static Object toMap_II(Integer a, Integer b) { return Stream.of(a, b).collect(Collectors.toMap(x -> x, x -> 1)).size(); }
    static Object freq_III(Integer a, Integer b, Integer c) { return Collections.frequency(Arrays.asList(a, b, c), a); }
    // ---- collections of unknown size
    static Object csize_C(Collection<?> a) { return a.size(); }
    static Object cempty_C(Collection<?> a) { return a.isEmpty(); }
    static Object ccontains_CO(Collection<?> a, Object b) { return a.contains(b); }
    static Object cany_C(Collection<?> a) { return a.stream().anyMatch(x -> x instanceof String); }
    static Object call_C(Collection<?> a) { return a.stream().allMatch(x -> x instanceof Integer); }
    static Object cnone_CI(Collection<?> a, Integer b) { return a.stream().noneMatch(x -> x.equals(b)); }
    static Object cloop_CI(Collection<?> a, Integer b) { for (Object o : a) if (b.equals(o)) return true; return false; }
    static Object cfirst_C(Collection<?> a) { return a.stream().map(x -> (Object) x).findFirst().orElse("none"); }
    static Object citer_C(Collection<?> a) { return a.iterator().next(); }
    static Object carr_C(Collection<?> a) { Object[] x = a.toArray(); return x.length > 1 ? x[1] : x[0]; }
    static Object clist_C(Collection<?> a) { List<Object> l = new ArrayList<>(a); l.add("end"); return l.get(l.size() - 1).equals("end") && l.size() == a.size() + 1 ? l.get(0) : "bad"; }
    static Object clist2_CC(Collection<?> a, Collection<?> b) { List<Object> l = new ArrayList<>(a); boolean ch = l.addAll(b); return ch == !b.isEmpty() && l.size() == a.size() + b.size() && (b.isEmpty() || l.get(a.size()).equals(b.iterator().next())) ? l.contains("a") : "bad"; }
    static Object clist3_CC(Collection<?> a, Collection<?> b) { return new ArrayList<Object>(a).containsAll(b); }
    static Object cidx_CI(Collection<?> a, Integer b) { return new ArrayList<Object>(a).get(b); }
    static Object cmap_C(Collection<?> a) { return a.stream().map(x -> x instanceof Number ? "n" : "o").collect(Collectors.toList()).contains("o"); }
    static Object ccount_C(Collection<?> a) { int n = 0; for (Object o : a) n++; return n; }
    static Object cthrow_C(Collection<?> a) { a.forEach(x -> { if (!(x instanceof Number)) throw new IllegalStateException(); }); return "ok"; }
    static Object clast_C(Collection<?> a) { Object l = null; for (Object o : a) l = o; return l; }
    static Object cflag_C(Collection<?> a) { boolean f = false; for (Object o : a) { f = f || o instanceof String; } return f; }
    static Object cflag2_C(Collection<?> a) { boolean f = true; for (Object o : a) { if (o instanceof String) { f = false; } } return f; }
    static Object cindex_C(Collection<?> a) { List<Object> l = new ArrayList<>(a); for (int i = 0; i < l.size(); i++) if (l.get(i) instanceof String) return i; return -1; }
    static Object cdistinct_C(Collection<?> a) { return a.stream().distinct().count() > 1; }
    static Object csetsize_C(Collection<?> a) { return new HashSet<Object>(a).size() == a.size(); }
    static Object qsum_Q(Collection<Integer> a) { return a.stream().mapToLong(Integer::longValue).sum(); }
    static Object qsumI_Q(Collection<Integer> a) { return a.stream().mapToInt(x -> x).sum(); }
    static Object qsumLoop_Q(Collection<Integer> a) { long s = 0; for (int x : a) s += x; return s; }
    static Object qsumExact_Q(Collection<Integer> a) { int s = 0; for (int x : a) s = Math.addExact(s, x); return s; }
    static Object qmax_Q(Collection<Integer> a) { return a.stream().mapToInt(x -> x).max().getAsInt(); }
    static Object qmaxC_Q(Collection<Integer> a) { return Collections.max(a); }
    static Object qminS_Q(Collection<Integer> a) { return a.stream().min(Comparator.naturalOrder()).get(); }
    static Object qmaxLoop_Q(Collection<Integer> a) { int m = Integer.MIN_VALUE; for (int x : a) if (x > m) m = x; return m; }
    static Object qred_Q(Collection<Integer> a) { return a.stream().reduce((x, y) -> x >= y ? x : y).get(); }
    static Object qredD_Q(Collection<Integer> a) { return a.stream().map(BigDecimal::new).reduce(BigDecimal.ZERO, BigDecimal::add); }
    static Object qsort_Q(Collection<Integer> a) { List<Integer> l = new ArrayList<>(a); Collections.sort(l); return l.get(l.size() / 2); }
    static Object qsorted_Q(Collection<Integer> a) { return a.stream().sorted().collect(Collectors.toList()).get(0); }
    static Object qlast_Q(Collection<Integer> a) { return a.stream().sorted().skip(a.size() - 1).findFirst().get(); }
    static Object qmode_Q(Collection<Integer> a) { Map<Integer, Integer> m = new HashMap<>(); int best = 0; Object r = null; for (Integer x : a) { int n = m.merge(x, 1, Integer::sum); if (n > best) { best = n; r = x; } } return r; }
    static Object qfilter_Q(Collection<Integer> a) { return a.stream().filter(x -> x > 1).findFirst().orElse(-1); }
    static Object qall_Q(Collection<Integer> a) { for (Integer x : a) { if (x <= 0) return false; } return true; }
    static Object qavg_Q(Collection<Integer> a) { return BigDecimal.valueOf(a.stream().mapToLong(x -> x).sum()).divide(BigDecimal.valueOf(a.size()), 3, RoundingMode.DOWN); }

    // ---- runs
    static Object[] pool(char k) {
        switch (k) {
            case 'I': return new Object[] {0, 1, -1, 2, 3, 7, -7, 127, 128, 100, Integer.MAX_VALUE, Integer.MIN_VALUE};
            case 'L': return new Object[] {0L, 1L, -1L, 5L, 2147483648L, -2147483649L, 4294967297L, Long.MAX_VALUE, Long.MIN_VALUE};
            case 'D': return new Object[] {new BigDecimal("0"), new BigDecimal("0.00"), new BigDecimal("1.50"), new BigDecimal("1.5"), new BigDecimal("-1.5"), new BigDecimal("1E+3"), new BigDecimal("2.5"), new BigDecimal("3"), new BigDecimal("-0.001"), new BigDecimal("9223372036854775808"), new BigDecimal("12345678901234567890.125"), new BigDecimal("100.0")};
            case 'F': return new Object[] {0.0, 1.5, 0.1, -2.0, 1e300, 3e9, Double.NaN, Double.POSITIVE_INFINITY, 100.0};
            case 'S': return new Object[] {"", "a", "ab", "1", "1.50", "true", "TRUE", "2024-01-01", "2024-02-30", "2024-01-01 10:00:00", "null", " a ", "a.b", "a.b.c", "-5", "+5", "x y", "9999999999", " ", "RED", "Ab", "1e3"};
            case 'B': return new Object[] {true, false};
            case 'T': return new Object[] {LocalDate.of(2024, 1, 1), LocalDate.of(2023, 12, 31), LocalDate.of(1969, 7, 20), LocalDate.of(2024, 2, 29)};
            case 'O': return new Object[] {0, 1, 5L, 1L, new BigDecimal("1.50"), new BigDecimal("1"), "a", "1", "", true, false, LocalDate.of(2024, 1, 1), 1.5, "abc"};
            case 'C': return new Object[] {Arrays.asList(), Arrays.asList(1), Arrays.asList(1, 2, 3), Arrays.asList("a", 1), Arrays.asList(2, 2), Arrays.asList(7, "b", 7), Arrays.asList(true, 5L, 1)};
            case 'Q': return new Object[] {Arrays.asList(), Arrays.asList(1), Arrays.asList(3, 1, 2), Arrays.asList(2, 2, 1), Arrays.asList(1, 2, 2, 1), Arrays.asList(Integer.MAX_VALUE, 1), Arrays.asList(-5, 5, Integer.MIN_VALUE)};
        }
        throw new IllegalStateException();
    }
    static String enc(Object o) {
        if (o == null) return "[\"Null\",\"\"]";
        if (o instanceof BigDecimal) return "[\"Dec\",\"" + ((BigDecimal) o).toPlainString() + "\"," + ((BigDecimal) o).scale() + "]";
        if (o instanceof Double) { double d = (Double) o; boolean f = !Double.isNaN(d) && !Double.isInfinite(d); return "[\"Dbl\"," + (f ? "\"" + new BigDecimal(d).toPlainString() + "\",\"" + new BigDecimal(o.toString()).toPlainString() + "\"," + new BigDecimal(o.toString()).scale() : "null") + "]"; }
        if (o instanceof LocalDate) return "[\"Date\",\"" + ((LocalDate) o).toEpochDay() + "\"]";
        if (o instanceof Collection) { StringBuilder b = new StringBuilder("[\"Coll\",["); String s = ""; for (Object x : (Collection<?>) o) { b.append(s).append(enc(x)); s = ","; } return b.append("]]").toString(); }
        String k = o instanceof Integer ? "Int" : o instanceof Long ? "Long" : o instanceof String ? "Str" : o instanceof Boolean ? "Bool" : o instanceof Character ? "Char" : "?";
        return "[\"" + k + "\",\"" + o + "\"]";
    }
    public static void main(String[] args) throws Exception {
        for (java.lang.reflect.Method m : Conf.class.getDeclaredMethods()) {
            int u = m.getName().lastIndexOf('_');
            if (u < 0 || m.isSynthetic()) continue;
            String ks = m.getName().substring(u + 1);
            Object[][] ps = new Object[ks.length()][];
            int n = 1;
            for (int i = 0; i < ps.length; i++) { ps[i] = pool(ks.charAt(i)); n *= ps[i].length; }
            java.util.Random r = new java.util.Random(m.getName().hashCode());
            int max = Integer.parseInt(args[0]);
            for (int c = 0; c < Math.min(n, max); c++) {
                int x = n <= max ? c : r.nextInt(n);
                Object[] a = new Object[ps.length];
                StringBuilder in = new StringBuilder();
                for (int i = 0; i < ps.length; i++) { a[i] = ps[i][x % ps[i].length]; x /= ps[i].length; in.append(i > 0 ? "," : "").append(enc(a[i])); }
                String out;
                try { out = "\"ret\"," + enc(m.invoke(null, a)); } catch (java.lang.reflect.InvocationTargetException e) { out = "\"exc\",\"" + e.getCause().getClass().getName().replace('.', '/') + "\""; }
                System.out.println("[\"" + m.getName() + "\",[" + in + "]," + out + "]");
            }
        }
    }
    static Object atom_II(Integer a, Integer b) { java.util.concurrent.atomic.AtomicInteger c = new java.util.concurrent.atomic.AtomicInteger(a); c.incrementAndGet(); int r = c.getAndAdd(b); if (c.compareAndSet(5, 6)) r++; return r * 31 + c.decrementAndGet(); }
    static Object atomflag_I(Integer a) { java.util.concurrent.atomic.AtomicBoolean f = new java.util.concurrent.atomic.AtomicBoolean(); if (a > 3) f.set(true); return f.compareAndSet(false, true) ? 1 : f.get() ? 2 : 3; }
}
