import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import com.github.sidhant92.boolparser.application.*;
import com.github.sidhant92.boolparser.parser.*;
import com.github.sidhant92.boolparser.parser.antlr.*;
import io.vavr.control.Try;

/** Threads that create and use parsers and evaluators at the same time; every answer has to be the one that the case gives alone.
 *  Usage: Race FILE MILLIS SEED fresh|long REPLAY. Nothing of the library is loaded before the threads start. */
public class Race {
    record Case(char which, String text, Map<String, Object> data, String want) { }
    @SuppressWarnings("unchecked")
    static List<Case> read(String file) throws Exception {
        List<Case> cs = new ArrayList<>(); List<String> l = Files.readAllLines(Path.of(file));
        for (int i = 0; i + 3 < l.size(); i += 4) cs.add(new Case(l.get(i).charAt(0), (String) Val.read(l.get(i + 1)), (Map<String, Object>) Val.read(l.get(i + 2)), l.get(i + 3)));
        return cs;
    }
    static String show(Callable<Try<?>> c) {
        Try<?> t;
        try { t = c.call(); } catch (Throwable e) { return "threw " + e; }
        return t == null ? "null" : t.isFailure() ? "fail" : Val.show(t.get());
    }
    static volatile String[] bad; static final AtomicLong done = new AtomicLong();
    static class User {
        final BoolExpressionParser p; final BooleanExpressionEvaluator b; final ArithmeticExpressionEvaluator a;
        User(int k) { p = k == 0 ? new BoolParser() : new CachedBoolParser(k == 1 ? 3 : 1000); if (k == 2) { a = new ArithmeticExpressionEvaluator(p); b = new BooleanExpressionEvaluator(p); } else { b = new BooleanExpressionEvaluator(p); a = new ArithmeticExpressionEvaluator(p); } }
        void one(Case c, String how) {
            String got = show(() -> c.which == 'B' ? b.evaluate(c.text, c.data, null) : a.evaluate(c.text, c.data));
            done.incrementAndGet();
            if (!got.equals(c.want) && bad == null) bad = new String[] {"an evaluation gives another answer beside other threads than alone", "evaluator=" + (c.which == 'B' ? "boolean" : "arithmetic"), "expression=" + Val.q(c.text), "default=null", "data=" + Val.show(c.data), "threads=" + how, "required=" + c.want, "observed=" + got};
        }
    }
    /** runs for a time; null or what went wrong */
    static String[] run(List<Case> cs, long ms, long seed, boolean fresh) throws Exception {
        int n = 8; CyclicBarrier start = new CyclicBarrier(n); long[] end = {0}; Thread[] ts = new Thread[n];
        User[] shared = fresh ? null : new User[] {new User(0), new User(1), new User(2)};
        for (int t = 0; t < n; t++) {
            final int id = t;
            ts[t] = new Thread(null, () -> {
                try {
                    Random r = new Random(seed * 31 + id); start.await(); long e = System.nanoTime() + ms * 1000000L;
                    User u = fresh ? new User(id % 3) : shared[r.nextInt(3)];
                    for (int k = 0; bad == null && System.nanoTime() < e; k++) {
                        if (fresh ? k % 40 == 39 : k % 200 == 199 && id % 4 == 0) u = new User(r.nextInt(3)); else if (!fresh && k % 50 == 0) u = shared[r.nextInt(3)];
                        // the threads work on few cases at a time, so that the same code runs in several of them
                        Case c = cs.get(fresh ? r.nextInt(cs.size()) : (int) ((System.nanoTime() / 20000000L * 7 + r.nextInt(4)) % cs.size()));
                        u.one(c, "8 threads, " + (fresh ? "each with its own parser and evaluators, created at the same time" : "shared parsers and evaluators, others created meanwhile"));
                    }
                } catch (Exception x) { throw new RuntimeException(x); }
            }, "t" + t, 16 << 20);
            ts[t].setDaemon(true); ts[t].start();
        }
        for (Thread t : ts) t.join(ms + 20000);
        return bad;
    }
    /** the first constructions of a fresh copy of the library, staggered; the trees are parsed before */
    public static String[] firsts(String file, long seed) throws Exception {
        Random r = new Random(seed); List<Case> all = read(file), cs = new ArrayList<>(); Map<String, Try<?>> trees = new HashMap<>(); BoolParser bp = new BoolParser();
        for (int i = 0; i < 12; i++) { Case c = all.get(r.nextInt(all.size())); cs.add(c); trees.put(c.text, bp.parseExpression(c.text, null)); }
        BoolExpressionParser p = (BoolExpressionParser) java.lang.reflect.Proxy.newProxyInstance(Race.class.getClassLoader(), new Class<?>[] {BoolExpressionParser.class}, (o, m, x) -> m.getName().equals("parseExpression") ? trees.get(x[0]) : null);
        int n = 6; CountDownLatch go = new CountDownLatch(1); Thread[] ts = new Thread[n]; long step = 50000L << r.nextInt(5);
        for (int t = 0; t < n; t++) {
            final int k = t;
            ts[t] = new Thread(null, () -> {
                try { go.await(); } catch (InterruptedException e) { return; }
                long e = System.nanoTime() + k * step; while (System.nanoTime() < e) Thread.onSpinWait();
                for (int j = 0; j < cs.size() && bad == null; j++) {
                    Case c = cs.get((j + k) % cs.size()); final boolean first = j == 0;
                    String got = show(() -> c.which == 'B' ? new BooleanExpressionEvaluator(p).evaluate(c.text, c.data, null) : new ArithmeticExpressionEvaluator(p).evaluate(c.text, c.data)); done.incrementAndGet();
                    if (!got.equals(c.want) && bad == null) bad = new String[] {"an evaluation gives another answer beside other threads than alone", "evaluator=" + (c.which == 'B' ? "boolean" : "arithmetic"), "expression=" + Val.q(c.text), "default=null", "data=" + Val.show(c.data), "threads=6 threads, the first constructions of evaluators in a process", "required=" + c.want, "observed=" + got};
                }
            }, "t" + t, 16 << 20);
            ts[t].setDaemon(true); ts[t].start();
        }
        go.countDown(); for (Thread t : ts) t.join(20000);
        return bad;
    }
    /** the answers of the cases, evaluated one after the other in this order or the other one */
    public static String[] answers(String file, boolean back) throws Exception {
        List<Case> cs = read(file); String[] r = new String[cs.size()]; BoolParser p = new BoolParser(); BooleanExpressionEvaluator b = new BooleanExpressionEvaluator(p); ArithmeticExpressionEvaluator a = new ArithmeticExpressionEvaluator(p);
        for (int j = 0; j < r.length; j++) { int i = back ? r.length - 1 - j : j; Case c = cs.get(i); r[i] = show(() -> c.which == 'B' ? b.evaluate(c.text, c.data, null) : a.evaluate(c.text, c.data)); }
        return r;
    }
    static String[] firstsAnew(String file, long seed) throws Exception { return anew("firsts", long.class, file, seed); }
    static String[] answersAnew(String file, boolean back) throws Exception { return anew("answers", boolean.class, file, back); }
    /** runs in a copy of the library of its own, freshly loaded */
    static String[] anew(String method, Class<?> type, String file, Object arg) throws Exception {
        List<java.net.URL> us = new ArrayList<>();
        for (String s : System.getProperty("java.class.path").split(java.io.File.pathSeparator)) if (!s.isEmpty()) us.add(new java.io.File(s).toURI().toURL());
        ClassLoader app = Race.class.getClassLoader();
        try (java.net.URLClassLoader l = new java.net.URLClassLoader(us.toArray(new java.net.URL[0]), app) {
            protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
                if (!name.startsWith("com.github.sidhant92.") && !name.startsWith("Race") && !name.startsWith("Val")) return super.loadClass(name, resolve);
                synchronized (getClassLoadingLock(name)) { Class<?> c = findLoadedClass(name); return c != null ? c : findClass(name); }
            }
        }) { return (String[]) l.loadClass("Race").getMethod(method, String.class, type).invoke(null, file, arg); }
    }
    public static void main(String[] a) throws Exception {
        java.io.PrintStream out = System.out; System.setErr(new java.io.PrintStream(java.io.OutputStream.nullOutputStream()));
        String[] b = run(read(a[0]), Long.parseLong(a[1]), Long.parseLong(a[2]), a[3].equals("fresh"));
        out.println("DONE " + done.get());
        if (b != null) { Files.write(Path.of(a[4]), Arrays.asList(b)); System.exit(1); }
        System.exit(0);
    }
}
