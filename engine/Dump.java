import java.io.*;
import java.nio.file.*;
import java.util.*;
import org.objectweb.asm.*;
import org.objectweb.asm.tree.*;
import org.objectweb.asm.util.Printer;

/** Dumps every class below a directory as JSON: the text the verifier executes symbolically. Nothing is dropped but debug
 *  variable names, frames and annotations. Also dumps the super types of every external class that is mentioned. */
public class Dump {
    static StringBuilder sb = new StringBuilder();
    static Set<String> ext = new TreeSet<>();
    static Set<String> own = new TreeSet<>();

    static void str(String s) {
        if (s == null) { sb.append("null"); return; }
        sb.append('"');
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') sb.append('\\').append(c);
            else if (c < 32 || c > 126) sb.append(String.format("\\u%04x", (int) c));
            else sb.append(c);
        }
        sb.append('"');
    }

    static void ref(String internal) {
        if (internal == null) return;
        while (internal.startsWith("[")) internal = internal.substring(1);
        if (internal.startsWith("L") && internal.endsWith(";")) internal = internal.substring(1, internal.length() - 1);
        if (internal.length() > 1) ext.add(internal);
    }

    static void cst(Object o) {
        if (o == null) sb.append("null");
        else if (o instanceof Integer) sb.append("[\"I\",").append(o).append("]");
        else if (o instanceof Long) sb.append("[\"J\",").append(o).append("]");
        else if (o instanceof Float) { sb.append("[\"F\","); str(o.toString()); sb.append("]"); }
        else if (o instanceof Double) { sb.append("[\"D\","); str(o.toString()); sb.append("]"); }
        else if (o instanceof String) { sb.append("[\"S\","); str((String) o); sb.append("]"); }
        else if (o instanceof Type) { sb.append("[\"T\","); str(((Type) o).getDescriptor()); ref(((Type) o).getDescriptor()); sb.append("]"); }
        else if (o instanceof Handle) { Handle h = (Handle) o; sb.append("[\"H\",").append(h.getTag()).append(","); str(h.getOwner()); sb.append(","); str(h.getName()); sb.append(","); str(h.getDesc()); sb.append(",").append(h.isInterface()).append("]"); ref(h.getOwner()); }
        else { sb.append("[\"?\","); str(o.toString()); sb.append("]"); }
    }

    static void sigrefs(String desc) {
        for (Type t : Type.getArgumentTypes(desc)) ref(t.getDescriptor());
        ref(Type.getReturnType(desc).getDescriptor());
    }

    public static void main(String[] a) throws Exception {
        List<Path> files = new ArrayList<>();
        try (java.util.stream.Stream<Path> s = Files.walk(Paths.get(a[0]))) { s.filter(p -> p.toString().endsWith(".class")).sorted().forEach(files::add); }
        sb.append("{\"classes\":{");
        boolean firstC = true;
        for (Path p : files) {
            ClassNode cn = new ClassNode();
            new ClassReader(Files.readAllBytes(p)).accept(cn, ClassReader.SKIP_FRAMES);
            own.add(cn.name);
            if (!firstC) sb.append(",\n"); firstC = false;
            str(cn.name); sb.append(":{\"super\":"); str(cn.superName); ref(cn.superName);
            sb.append(",\"access\":").append(cn.access).append(",\"interfaces\":[");
            for (int i = 0; i < cn.interfaces.size(); i++) { if (i > 0) sb.append(','); str(cn.interfaces.get(i)); ref(cn.interfaces.get(i)); }
            sb.append("],\"fields\":[");
            for (int i = 0; i < cn.fields.size(); i++) {
                FieldNode f = cn.fields.get(i); if (i > 0) sb.append(',');
                sb.append("["); str(f.name); sb.append(","); str(f.desc); sb.append(",").append(f.access).append(","); cst(f.value); sb.append("]"); ref(f.desc);
            }
            sb.append("],\"methods\":[");
            for (int m = 0; m < cn.methods.size(); m++) {
                MethodNode mn = cn.methods.get(m); if (m > 0) sb.append(",\n ");
                sb.append("{\"name\":"); str(mn.name); sb.append(",\"desc\":"); str(mn.desc); sb.append(",\"access\":").append(mn.access);
                sigrefs(mn.desc);
                Map<LabelNode, Integer> pos = new HashMap<>();
                int n = 0;
                for (AbstractInsnNode in : mn.instructions) { if (in instanceof LabelNode) pos.put((LabelNode) in, n); else if (in.getOpcode() >= 0) n++; }
                sb.append(",\"code\":[");
                int line = 0; boolean first = true;
                for (AbstractInsnNode in : mn.instructions) {
                    if (in instanceof LineNumberNode) line = ((LineNumberNode) in).line;
                    if (in.getOpcode() < 0) continue;
                    if (!first) sb.append(','); first = false;
                    sb.append("["); str(Printer.OPCODES[in.getOpcode()]); sb.append(",").append(line);
                    if (in instanceof VarInsnNode) sb.append(",").append(((VarInsnNode) in).var);
                    else if (in instanceof IntInsnNode) sb.append(",").append(((IntInsnNode) in).operand);
                    else if (in instanceof IincInsnNode) sb.append(",").append(((IincInsnNode) in).var).append(",").append(((IincInsnNode) in).incr);
                    else if (in instanceof TypeInsnNode) { sb.append(","); str(((TypeInsnNode) in).desc); ref(((TypeInsnNode) in).desc); }
                    else if (in instanceof FieldInsnNode) { FieldInsnNode f = (FieldInsnNode) in; sb.append(","); str(f.owner); sb.append(","); str(f.name); sb.append(","); str(f.desc); ref(f.owner); ref(f.desc); }
                    else if (in instanceof MethodInsnNode) { MethodInsnNode f = (MethodInsnNode) in; sb.append(","); str(f.owner); sb.append(","); str(f.name); sb.append(","); str(f.desc); ref(f.owner); sigrefs(f.desc); }
                    else if (in instanceof JumpInsnNode) sb.append(",").append(pos.get(((JumpInsnNode) in).label));
                    else if (in instanceof LdcInsnNode) { sb.append(","); cst(((LdcInsnNode) in).cst); }
                    else if (in instanceof MultiANewArrayInsnNode) { sb.append(","); str(((MultiANewArrayInsnNode) in).desc); sb.append(",").append(((MultiANewArrayInsnNode) in).dims); }
                    else if (in instanceof TableSwitchInsnNode) { TableSwitchInsnNode t = (TableSwitchInsnNode) in; sb.append(",{"); for (int i = 0; i < t.labels.size(); i++) { if (i > 0) sb.append(','); sb.append('"').append(t.min + i).append("\":").append(pos.get(t.labels.get(i))); } sb.append("},").append(pos.get(t.dflt)); }
                    else if (in instanceof LookupSwitchInsnNode) { LookupSwitchInsnNode t = (LookupSwitchInsnNode) in; sb.append(",{"); for (int i = 0; i < t.labels.size(); i++) { if (i > 0) sb.append(','); sb.append('"').append(t.keys.get(i)).append("\":").append(pos.get(t.labels.get(i))); } sb.append("},").append(pos.get(t.dflt)); }
                    else if (in instanceof InvokeDynamicInsnNode) { InvokeDynamicInsnNode d = (InvokeDynamicInsnNode) in; sb.append(","); str(d.name); sb.append(","); str(d.desc); sb.append(","); cst(d.bsm); sb.append(",["); for (int i = 0; i < d.bsmArgs.length; i++) { if (i > 0) sb.append(','); cst(d.bsmArgs[i]); } sb.append("]"); }
                    sb.append("]");
                }
                sb.append("],\"tries\":[");
                for (int i = 0; i < mn.tryCatchBlocks.size(); i++) {
                    TryCatchBlockNode t = mn.tryCatchBlocks.get(i); if (i > 0) sb.append(',');
                    sb.append("[").append(pos.get(t.start)).append(",").append(pos.get(t.end)).append(",").append(pos.get(t.handler)).append(","); str(t.type); sb.append("]"); ref(t.type);
                }
                sb.append("]}");
            }
            sb.append("]}");
        }
        sb.append("},\n\"external\":{");
        boolean first = true;
        Deque<String> todo = new ArrayDeque<>(ext); Set<String> seen = new HashSet<>();
        for (String s : new String[]{"java/lang/NullPointerException","java/lang/ClassCastException","java/lang/ArithmeticException","java/lang/ArrayIndexOutOfBoundsException","java/lang/IndexOutOfBoundsException","java/lang/NumberFormatException","java/util/NoSuchElementException","java/lang/IllegalArgumentException","java/lang/IllegalStateException","java/lang/UnsupportedOperationException","java/time/format/DateTimeParseException","java/lang/NegativeArraySizeException","java/util/ConcurrentModificationException","java/util/EmptyStackException","java/lang/ArrayStoreException","java/lang/StackOverflowError","java/lang/Integer","java/lang/Long","java/lang/Float","java/lang/Double","java/lang/Boolean","java/math/BigDecimal","java/time/LocalDate","java/time/LocalDateTime","java/util/ArrayList","java/util/HashMap","org/apache/maven/artifact/versioning/ComparableVersion"}) todo.add(s);
        while (!todo.isEmpty()) {
            String s = todo.poll();
            if (own.contains(s) || !seen.add(s)) continue;
            try {
                Class<?> c = Class.forName(s.replace('/', '.'), false, Dump.class.getClassLoader());
                if (!first) sb.append(",\n"); first = false;
                str(s); sb.append(":{\"super\":"); str(c.getSuperclass() == null ? null : c.getSuperclass().getName().replace('.', '/'));
                sb.append(",\"iface\":").append(c.isInterface()).append(",\"interfaces\":[");
                Class<?>[] is = c.getInterfaces();
                for (int i = 0; i < is.length; i++) { if (i > 0) sb.append(','); str(is[i].getName().replace('.', '/')); todo.add(is[i].getName().replace('.', '/')); }
                sb.append("]}");
                if (c.getSuperclass() != null) todo.add(c.getSuperclass().getName().replace('.', '/'));
            } catch (Throwable t) { /* unknown external class: treated as opaque */ }
        }
        sb.append("}}");
        Files.write(Paths.get(a[1]), sb.toString().getBytes("UTF-8"));
    }
}
