import com.sun.source.tree.*;
import com.sun.source.util.*;
import java.util.*;
import javax.tools.*;

/** Prints the syntax trees of Java classes as JSON. */
public class JavaDump {
  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append('"').toString();
  }
  static String list(Iterable<? extends Tree> l) {
    StringJoiner j = new StringJoiner(",", "[", "]");
    if (l != null) for (Tree t : l) j.add(e(t));
    return j.toString();
  }
  static String n(String k, String... a) {
    return "[" + q(k) + (a.length > 0 ? "," : "") + String.join(",", a) + "]";
  }
  static String e(Tree t) {
    if (t == null) return "null";
    if (t instanceof LiteralTree) {
      Object v = ((LiteralTree) t).getValue();
      if (v instanceof Number || v instanceof Boolean) return n("lit", v.toString());
      return n("lit", v == null ? "null" : q(v.toString()));
    }
    if (t instanceof IdentifierTree) return n("id", q(((IdentifierTree) t).getName().toString()));
    if (t instanceof MemberSelectTree) {
      MemberSelectTree m = (MemberSelectTree) t;
      return n("sel", e(m.getExpression()), q(m.getIdentifier().toString()));
    }
    if (t instanceof ParenthesizedTree) return e(((ParenthesizedTree) t).getExpression());
    if (t instanceof UnaryTree) return n("un", q(t.getKind().toString()), e(((UnaryTree) t).getExpression()));
    if (t instanceof BinaryTree) {
      BinaryTree b = (BinaryTree) t;
      return n("bin", q(t.getKind().toString()), e(b.getLeftOperand()), e(b.getRightOperand()));
    }
    if (t instanceof AssignmentTree) {
      AssignmentTree a = (AssignmentTree) t;
      return n("assign", e(a.getVariable()), e(a.getExpression()));
    }
    if (t instanceof NewArrayTree) return n("array", list(((NewArrayTree) t).getInitializers()));
    if (t instanceof MethodInvocationTree) {
      MethodInvocationTree m = (MethodInvocationTree) t;
      return n("call", e(m.getMethodSelect()), list(m.getArguments()));
    }
    if (t instanceof NewClassTree) {
      NewClassTree m = (NewClassTree) t;
      return n("new", q(m.getIdentifier().toString()), list(m.getArguments()), m.getClassBody() == null ? "null" : e(m.getClassBody()));
    }
    if (t instanceof ConditionalExpressionTree) {
      ConditionalExpressionTree c = (ConditionalExpressionTree) t;
      return n("cond", e(c.getCondition()), e(c.getTrueExpression()), e(c.getFalseExpression()));
    }
    if (t instanceof TypeCastTree) return e(((TypeCastTree) t).getExpression());
    if (t instanceof ExpressionStatementTree) return e(((ExpressionStatementTree) t).getExpression());
    if (t instanceof ReturnTree) return n("return", e(((ReturnTree) t).getExpression()));
    if (t instanceof ThrowTree) return n("throw", e(((ThrowTree) t).getExpression()));
    if (t instanceof BlockTree) return n("block", list(((BlockTree) t).getStatements()));
    if (t instanceof IfTree) {
      IfTree i = (IfTree) t;
      return n("if", e(i.getCondition()), e(i.getThenStatement()), e(i.getElseStatement()));
    }
    if (t instanceof VariableTree) {
      VariableTree v = (VariableTree) t;
      return n("var", q(v.getName().toString()), q(String.valueOf(v.getType())), e(v.getInitializer()));
    }
    if (t instanceof MethodTree) {
      MethodTree m = (MethodTree) t;
      return n("method", q(m.getName().toString()), q(String.valueOf(m.getReturnType())), list(m.getParameters()), e(m.getBody()));
    }
    if (t instanceof ClassTree) return n("class", q(((ClassTree) t).getSimpleName().toString()), list(((ClassTree) t).getMembers()));
    return n("other", q(t.getKind().toString()));
  }
  public static void main(String[] a) throws Exception {
    JavaCompiler c = ToolProvider.getSystemJavaCompiler();
    StandardJavaFileManager fm = c.getStandardFileManager(null, null, null);
    JavacTask task = (JavacTask) c.getTask(null, fm, null, null, null, fm.getJavaFileObjects(a));
    StringJoiner j = new StringJoiner(",", "[", "]");
    for (CompilationUnitTree u : task.parse()) j.add(list(u.getTypeDecls()));
    System.out.println(j);
  }
}
