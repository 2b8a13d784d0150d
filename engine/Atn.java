import java.nio.file.*;
import java.util.*;
import org.antlr.v4.runtime.*;
import org.antlr.v4.runtime.atn.*;
import org.antlr.v4.runtime.misc.*;

/** Writes the transition networks of the compiled lexer and parser, as the interpreters of fresh instances hold them, as JSON. */
public class Atn {
    static StringBuilder sb = new StringBuilder();
    static void set(IntervalSet s) {
        sb.append("[");
        boolean first = true;
        for (Interval i : s.getIntervals()) { if (!first) sb.append(','); first = false; sb.append("[").append(i.a).append(",").append(i.b).append("]"); }
        sb.append("]");
    }
    static String q(String s) { return s == null ? "null" : "\"" + s.replace("\\", "\\\\").replace("\"", "\\\"") + "\""; }
    static void atn(Recognizer<?, ?> r, ATN a) {
        sb.append("{\"rules\":[");
        for (int i = 0; i < r.getRuleNames().length; i++) sb.append(i > 0 ? "," : "").append(q(r.getRuleNames()[i]));
        sb.append("],\"symbols\":[");
        for (int i = 0; i <= r.getVocabulary().getMaxTokenType(); i++) {
            String n = r.getVocabulary().getSymbolicName(i), l = r.getVocabulary().getLiteralName(i);
            sb.append(i > 0 ? "," : "").append(q(n != null && !n.equals("EOF") ? n : l));
        }
        sb.append("],\"literals\":[");
        for (int i = 0; i <= r.getVocabulary().getMaxTokenType(); i++) sb.append(i > 0 ? "," : "").append(q(r.getVocabulary().getLiteralName(i)));
        sb.append("],\"start\":[");
        for (int i = 0; i < a.ruleToStartState.length; i++) sb.append(i > 0 ? "," : "").append(a.ruleToStartState[i].stateNumber);
        sb.append("],\"stop\":[");
        for (int i = 0; i < a.ruleToStopState.length; i++) sb.append(i > 0 ? "," : "").append(a.ruleToStopState[i].stateNumber);
        sb.append("],\"tokenOfRule\":[");
        if (a.ruleToTokenType != null) for (int i = 0; i < a.ruleToTokenType.length; i++) sb.append(i > 0 ? "," : "").append(a.ruleToTokenType[i]);
        sb.append("],\"modes\":[");
        for (int i = 0; i < a.modeToStartState.size(); i++) sb.append(i > 0 ? "," : "").append(a.modeToStartState.get(i).stateNumber);
        sb.append("],\"actions\":[");
        if (a.lexerActions != null) for (int i = 0; i < a.lexerActions.length; i++) sb.append(i > 0 ? "," : "").append(q(a.lexerActions[i].toString()));
        sb.append("],\"states\":[");
        for (int i = 0; i < a.states.size(); i++) {
            ATNState s = a.states.get(i);
            if (i > 0) sb.append(",\n");
            if (s == null) { sb.append("null"); continue; }
            sb.append("{\"n\":").append(s.stateNumber).append(",\"kind\":").append(q(s.getClass().getSimpleName())).append(",\"rule\":").append(s.ruleIndex);
            if (s instanceof DecisionState) sb.append(",\"decision\":").append(((DecisionState) s).decision).append(",\"nongreedy\":").append(((DecisionState) s).nonGreedy);
            if (s instanceof StarLoopEntryState) sb.append(",\"precedence\":").append(((StarLoopEntryState) s).isPrecedenceDecision);
            sb.append(",\"eps\":").append(s.onlyHasEpsilonTransitions()).append(",\"trans\":[");
            for (int k = 0; k < s.getNumberOfTransitions(); k++) {
                Transition t = s.transition(k);
                if (k > 0) sb.append(',');
                sb.append("{\"to\":").append(t.target.stateNumber).append(",\"kind\":").append(q(t.getClass().getSimpleName()));
                if (t.label() != null) { sb.append(",\"set\":"); set(t.label()); }
                if (t instanceof RuleTransition) sb.append(",\"rule\":").append(((RuleTransition) t).ruleIndex).append(",\"prec\":").append(((RuleTransition) t).precedence).append(",\"follow\":").append(((RuleTransition) t).followState.stateNumber);
                if (t instanceof PrecedencePredicateTransition) sb.append(",\"level\":").append(((PrecedencePredicateTransition) t).precedence);
                if (t instanceof ActionTransition) sb.append(",\"action\":").append(((ActionTransition) t).actionIndex);
                sb.append("}");
            }
            sb.append("]}");
        }
        sb.append("]}");
    }
    public static void main(String[] a) throws Exception {
        String pk = "com.github.sidhant92.boolparser.parser.antlr.";
        Lexer l = (Lexer) Class.forName(pk + "BooleanExpressionLexer").getConstructor(CharStream.class).newInstance(CharStreams.fromString(""));
        Parser p = (Parser) Class.forName(pk + "BooleanExpressionParser").getConstructor(TokenStream.class).newInstance(new CommonTokenStream(l));
        sb.append("{\"lexer\":"); atn(l, l.getInterpreter().atn); sb.append(",\n\"parser\":"); atn(p, p.getInterpreter().atn); sb.append("}");
        Files.write(Paths.get(a[0]), sb.toString().getBytes("UTF-8"));
    }
}
