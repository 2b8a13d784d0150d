From 43c0219ec68b48038bf2a5e7f5c866b0dbbc9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:23 +0000
Subject: [PATCH 01/19] fix: build each expression from the nodes of its own
 operands

BooleanFilterListener guessed the operands of an expression from whatever was
on top of a stack, so that elements of a word list, function arguments, or
parenthesised operands ended up as operands of an unrelated operator
('a in (min(1,2), 3) AND x > 2') or made the parse fail
('age in (1,2) AND x > 3', 'x > 3 AND not flag', '(a+b) > (c+d)').
---
 .../parser/antlr/BooleanFilterListener.java   | 159 +++++-------------
 1 file changed, 44 insertions(+), 115 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..6d25475 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -2,12 +2,10 @@ package com.github.sidhant92.boolparser.parser.antlr;
 
 import java.util.List;
 import java.util.Objects;
-import java.util.Stack;
 import java.util.stream.Collectors;
-import org.antlr.v4.runtime.CommonToken;
+import org.antlr.v4.runtime.ParserRuleContext;
 import org.antlr.v4.runtime.Token;
-import org.antlr.v4.runtime.tree.ParseTree;
-import org.antlr.v4.runtime.tree.TerminalNodeImpl;
+import org.antlr.v4.runtime.tree.ParseTreeProperty;
 import org.apache.commons.lang3.StringUtils;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -29,48 +27,48 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private Node node;
 
-    private final Stack<Node> currentNodes;
-
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
+    // the node built for each expression that has been exited, an expression is built from the nodes of its own operands
+    private final ParseTreeProperty<Node> nodes;
 
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
-        this.currentNodes = new Stack<>();
+        this.nodes = new ParseTreeProperty<>();
     }
 
     public Node getNode() {
         return this.node;
     }
 
+    @Override
+    public void exitParentExpression(BooleanExpressionParser.ParentExpressionContext ctx) {
+        nodes.put(ctx, getNode(ctx.expression(), ctx));
+        super.exitParentExpression(ctx);
+    }
+
     @Override
     public void exitComparatorExpression(BooleanExpressionParser.ComparatorExpressionContext ctx) {
-        currentNodes.add(mapComparatorExpressionContext(ctx));
-        super.enterComparatorExpression(ctx);
+        nodes.put(ctx, mapComparatorExpressionContext(ctx));
+        super.exitComparatorExpression(ctx);
     }
 
     @Override
     public void exitArithmeticExpression(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
-        currentNodes.add(mapArithmeticExpressionContext(ctx));
+        nodes.put(ctx, mapArithmeticExpressionContext(ctx));
         super.exitArithmeticExpression(ctx);
     }
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
-        currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
-        super.enterUnaryArithmeticExpression(ctx);
+        nodes.put(ctx, ArithmeticNode.builder().left(getNode(ctx.exp, ctx)).operator(Operator.UNARY).build());
+        super.exitUnaryArithmeticExpression(ctx);
     }
 
     @Override
     public void exitToExpression(BooleanExpressionParser.ToExpressionContext ctx) {
-        currentNodes.add(mapToExpressionContext(ctx));
+        nodes.put(ctx, mapToExpressionContext(ctx));
         super.exitToExpression(ctx);
     }
 
@@ -78,51 +76,37 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     public void exitArrayExpression(BooleanExpressionParser.ArrayExpressionContext ctx) {
         validateField(ctx.field, ctx.getText());
         final String field = getField(ctx.field.getText());
-        final List<Node> items = getArrayElements(ctx.data.children);
+        final List<Node> items = getArrayElements(ctx.data);
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        currentNodes.add(new ArrayNode(field, operator, items));
+        nodes.put(ctx, new ArrayNode(field, operator, items));
         super.exitArrayExpression(ctx);
     }
 
     @Override
     public void exitArithmeticFunctionExpression(BooleanExpressionParser.ArithmeticFunctionExpressionContext ctx) {
-        final Node node = mapArithmeticFunctionExpressionContext(ctx);
-        currentNodes.add(node);
+        nodes.put(ctx, mapArithmeticFunctionExpressionContext(ctx));
         super.exitArithmeticFunctionExpression(ctx);
     }
 
     @Override
     public void exitInExpression(BooleanExpressionParser.InExpressionContext ctx) {
-        currentNodes.add(mapInExpressionContext(ctx));
+        nodes.put(ctx, mapInExpressionContext(ctx));
         super.exitInExpression(ctx);
     }
 
-    private List<Node> getArrayElements(final List<ParseTree> trees) {
-        return trees
-                .stream()
-                .filter(child -> !(child instanceof TerminalNodeImpl))
-                .map(this::mapContextToNode)
-                .collect(Collectors.toList());
+    private Node getNode(final BooleanExpressionParser.ExpressionContext operand, final ParserRuleContext ctx) {
+        final Node operandNode = Objects.isNull(operand) ? null : nodes.get(operand);
+        if (Objects.isNull(operandNode)) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        }
+        return operandNode;
     }
 
-    private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
-            return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
-            throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
-        }
+    private List<Node> getArrayElements(final BooleanExpressionParser.WordlistContext wordlist) {
+        return wordlist.expression()
+                .stream()
+                .map(expression -> getNode(expression, wordlist))
+                .collect(Collectors.toList());
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
@@ -149,58 +133,25 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         final FunctionType functionType = FunctionType.getArrayFunctionFromSymbol(ctx.left.getText()).orElseThrow(() -> {
             return new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
         });
-        final List<Node> items = getArrayElements(ctx.data.children);
+        final List<Node> items = getArrayElements(ctx.data);
         return new ArithmeticFunctionNode(functionType, items);
     }
 
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
-            }
-        }
-
         final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
+        return new ComparisonNode(getNode(ctx.left, ctx), getNode(ctx.right, ctx), operator, dataType);
     }
 
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
+        return ArithmeticNode.builder().left(getNode(ctx.left, ctx)).right(getNode(ctx.right, ctx)).operator(operator).build();
     }
 
     private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
         validateField(ctx.field, ctx.getText());
         final String field = getField(ctx.field.getText());
-        final List<Node> items = getArrayElements(ctx.data.children);
+        final List<Node> items = getArrayElements(ctx.data);
         final InNode inNode = new InNode(field, items);
         if (Objects.isNull(ctx.not)) {
             return inNode;
@@ -262,50 +213,28 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitParse(BooleanExpressionParser.ParseContext ctx) {
-        if (this.node == null && !this.currentNodes.isEmpty()) {
-            this.node = currentNodes.pop();
-        }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
-        }
-        if (this.node == null) {
-            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-        }
+        this.node = getNode(ctx.expression(), ctx);
         super.exitParse(ctx);
     }
 
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
-        }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
-        currentNodes.add(booleanToken);
+        final Node operand = getNode(ctx.expression(), ctx);
+        final Node booleanOperand = operand instanceof FieldNode ? new UnaryNode(DataType.STRING, ((FieldNode) operand).getField()) : operand;
+        nodes.put(ctx, new BooleanNode(booleanOperand, null, LogicalOperationType.NOT));
         super.exitNotExpression(ctx);
     }
 
     @Override
     public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
+        nodes.put(ctx, mapTypesExpressionContext(ctx));
+        super.exitTypesExpression(ctx);
     }
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
         final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
-        final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
-        currentNodes.add(booleanToken);
-        super.enterBinaryExpression(ctx);
+        nodes.put(ctx, new BooleanNode(getNode(ctx.left, ctx), getNode(ctx.right, ctx), operator));
+        super.exitBinaryExpression(ctx);
     }
 }
-- 
2.43.0


From 84569bd9f6654222e8a8d7b3c54ba40e643a295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 02/19] fix: reject an expression followed by tokens that are
 not part of it

'a = 1 b = 2' was evaluated as 'a = 1': the tokens the parser could not
attach to the expression were reported on the console and ignored.
---
 .../boolparser/parser/antlr/BooleanFilterListener.java        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 6d25475..7b338dc 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -5,6 +5,7 @@ import java.util.Objects;
 import java.util.stream.Collectors;
 import org.antlr.v4.runtime.ParserRuleContext;
 import org.antlr.v4.runtime.Token;
+import org.antlr.v4.runtime.tree.ErrorNode;
 import org.antlr.v4.runtime.tree.ParseTreeProperty;
 import org.apache.commons.lang3.StringUtils;
 import com.github.sidhant92.boolparser.constant.FunctionType;
@@ -213,6 +214,9 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitParse(BooleanExpressionParser.ParseContext ctx) {
+        if (Objects.nonNull(ctx.exception) || ctx.children.stream().anyMatch(ErrorNode.class::isInstance)) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        }
         this.node = getNode(ctx.expression(), ctx);
         super.exitParse(ctx);
     }
-- 
2.43.0


From b3f67c70d7e447808daa95ea522c8857e134d8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 03/19] fix: do not share a cache entry between different
 (expression, default field) pairs

The key was the concatenation of the two, so that 'a' with default field 'b_c'
and 'a_b' with default field 'c' got each other's parse result.
---
 .../boolparser/parser/antlr/CachedBoolParser.java          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..bf5be65 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
-import java.util.Optional;
+import java.util.Arrays;
+import java.util.List;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +9,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<List<String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +27,7 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
+        final List<String> cacheKey = Arrays.asList(expression, defaultField);
         return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From b6610c7ef05beb50479898d67431b183264387e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:23 +0000
Subject: [PATCH 04/19] fix: subtract integers without wrapping around at 32
 bits

2147483647 - (-1) was -2147483648, while the addition of integers already
gives a long when the result needs one.
---
 .../boolparser/operator/arithmetic/SubtractOperator.java       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..accb37b 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -10,6 +10,7 @@ import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -28,7 +29,7 @@ public class SubtractOperator extends AbstractOperator {
             return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        return ValueUtils.castLong((long) integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get());
     }
 
     @Override
-- 
2.43.0


From 149261e8123eb8875c9ee54326f712446832c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 05/19] fix: fail on long overflow instead of returning a
 wrapped around result

Addition, subtraction and multiplication of longs (and SUM and AVG over longs)
silently returned a value of the wrong sign and magnitude.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java  | 2 +-
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java  | 2 +-
 .../sidhant92/boolparser/operator/arithmetic/AddOperator.java  | 2 +-
 .../boolparser/operator/arithmetic/MultiplyOperator.java       | 3 ++-
 .../boolparser/operator/arithmetic/SubtractOperator.java       | 2 +-
 5 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..ce78ea8 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -37,7 +37,7 @@ public class AvgFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0, Math::addExact);
         return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
     }
 
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..afbacc1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -36,7 +36,7 @@ public class SumFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0, Math::addExact);
         return ValueUtils.castDecimal(sum);
     }
 
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..2a80de1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -28,7 +28,7 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.addExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..4ecf5b3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -24,7 +24,8 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(
+                Math.multiplyExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index accb37b..e71dfb5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -26,7 +26,7 @@ public class SubtractOperator extends AbstractOperator {
         }
         if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
+            return Math.subtractExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castLong((long) integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get());
-- 
2.43.0


From a2c4fed617dc3e0a212ee40321eae40aef3d76c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:57 +0000
Subject: [PATCH 06/19] fix: negate Float and Double operands and the minimum
 integer

'- a' threw a ClassCastException for a Float or Double value of a, and was a
itself for the smallest Integer and the smallest Long.
---
 .../boolparser/operator/arithmetic/UnaryOperator.java | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..5db26d9 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -1,12 +1,14 @@
 package com.github.sidhant92.boolparser.operator.arithmetic;
 
-import java.math.BigDecimal;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -17,12 +19,13 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+            return decimalDataType.getValue(leftOperand).get().negate();
         }
         if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
+            return Math.negateExact((long) leftOperand);
         }
-        return -(int) leftOperand;
+        return ValueUtils.castLong(-(long) (int) leftOperand);
     }
 
     @Override
-- 
2.43.0


From d87678bd0e92164789d638cc500743bb4956c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 07/19] fix: do not pass MIN, MAX and SUM of longs through a
 double

castDecimal(double) rounded results beyond 2^53: MAX(9007199254740993, 1) was
9007199254740992.
---
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index afbacc1..059611e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -37,7 +37,7 @@ public class SumFunction extends AbstractFunction {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
                 .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0, Math::addExact);
-        return ValueUtils.castDecimal(sum);
+        return ValueUtils.castLong(sum);
     }
 
     @Override
-- 
2.43.0


From fd03746be815f869e865dbaf1d7fae6fc87d7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 08/19] fix: return integral decimal results that do not fit an
 int

castDecimal(BigDecimal) used intValueExact, so 10000000000 / 2 failed with an
ArithmeticException.
---
 .../com/github/sidhant92/boolparser/util/ValueUtils.java    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..4f3f8d3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -102,7 +102,11 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            try {
+                return castLong(value.longValueExact());
+            } catch (ArithmeticException ex) {
+                return value;
+            }
         }
         return value;
     }
-- 
2.43.0


From 46db33813a0b06373796cd09fc40fc82c2f945e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 09/19] fix: average of integers that is not exact to two
 decimals

AVG(1, 2, 2) failed with an ArithmeticException (RoundingMode.UNNECESSARY);
it is now truncated to three decimals, as it is for decimals and in a division.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index ce78ea8..3947c13 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -38,7 +38,7 @@ public class AvgFunction extends AbstractFunction {
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
                 .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0, Math::addExact);
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 3, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From 86c6407339c550688973c3a20345ec3d9c90e759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 10/19] fix: convert numbers beyond the int range with INT

INT(10000000000) was 1410065408.
---
 .../boolparser/function/arithmetic/IntFunction.java        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..3582ccf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -9,6 +10,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +21,11 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
+            final BigDecimal value = (BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get();
+            return ValueUtils.castDecimal(value.setScale(0, RoundingMode.DOWN));
         }
         if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            return ValueUtils.castLong((Long) item.getValue());
         }
         return item.getValue();
     }
-- 
2.43.0


From 3b8a2e3fc67ae6ab9ad1c4acfac4328f8795c974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 11/19] fix: null checks look at the operand that is not the
 null literal

'null = b' looked up a field called null, so it was true for every b, and a
present value whose text is 'null' was taken for a missing one.
---
 .../application/BooleanExpressionEvaluator.java        | 10 ++++++----
 .../boolparser/domain/logical/ComparisonNode.java      |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..eb6b8b0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -89,11 +89,13 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
+        if (comparisonToken.isNullCheck()) {
+            final boolean isPresent = getValue(comparisonToken.getNullCheckOperand(), data).isPresent();
+            return comparisonToken.getOperator().equals(Operator.NOT_EQUAL) == isPresent;
+        }
+        final Object leftData = getValue(comparisonToken.getLeft(), data).orElseThrow(
                 () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        final Object rightData = getValue(comparisonToken.getRight(), data).get();
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
diff --git a/src/main/java/com/github/sidhant92/boolparser/domain/logical/ComparisonNode.java b/src/main/java/com/github/sidhant92/boolparser/domain/logical/ComparisonNode.java
index 74e39c9..1a360f2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/domain/logical/ComparisonNode.java
+++ b/src/main/java/com/github/sidhant92/boolparser/domain/logical/ComparisonNode.java
@@ -34,4 +34,8 @@ public class ComparisonNode extends Node {
     public boolean isNullCheck() {
         return Operator.getEqualityOperators().contains(this.operator) && (this.right instanceof FieldNode && ((FieldNode) this.right).isNull() || this.left instanceof FieldNode && ((FieldNode) this.left).isNull());
     }
+
+    public Node getNullCheckOperand() {
+        return this.left instanceof FieldNode && ((FieldNode) this.left).isNull() ? this.right : this.left;
+    }
 }
-- 
2.43.0


From 4b4590128bc9bdc8155c70f88b09d9f71ee50a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:49 +0000
Subject: [PATCH 12/19] fix: evaluate boolean fields and reject other operands
 that are not boolean

A field (or an arithmetic expression) where a boolean expression is expected
was silently false: 'flag AND age > 3' with flag = true.
---
 .../application/BooleanExpressionEvaluator.java     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index eb6b8b0..d99ad20 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -68,8 +69,10 @@ public class BooleanExpressionEvaluator {
                 return evaluateUnaryToken((UnaryNode) node, data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
+            case FIELD:
+                return evaluateBooleanField(((FieldNode) node).getField(), data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -163,8 +166,12 @@ public class BooleanExpressionEvaluator {
         if (unaryToken.getDataType().equals(DataType.BOOLEAN)) {
             return (boolean) unaryToken.getValue();
         }
-        final Object fieldData = ValueUtils.getValueFromMap(unaryToken.getValue().toString(), data)
-                                           .orElseThrow(() -> new DataNotFoundException(unaryToken.getValue().toString()));
+        return evaluateBooleanField(unaryToken.getValue().toString(), data);
+    }
+
+    private boolean evaluateBooleanField(final String field, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(field, data)
+                                           .orElseThrow(() -> new DataNotFoundException(field));
         if (!(fieldData instanceof Boolean)) {
             throw new InvalidUnaryOperand();
         }
-- 
2.43.0


From 92a62de9ab5f2cd45fb4c2aeb5f207b383e7b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:28 +0000
Subject: [PATCH 13/19] fix: resolve operators and functions independently of
 the default locale

In a Turkish locale 'min' upper-cases to a text that is no function name and
'CONTAINS_ANY' lower-cases to a text that is no operator symbol.
---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 .../sidhant92/boolparser/datatype/BooleanDataType.java     | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
index 2384f64..9ec710e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/BooleanDataType.java
@@ -1,5 +1,6 @@
 package com.github.sidhant92.boolparser.datatype;
 
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -21,7 +22,7 @@ public class BooleanDataType extends AbstractDataType<Boolean> {
     public boolean isValid(final Object value) {
         boolean isValid = super.defaultIsValid(value);
         if (!isValid) {
-            final String lowercase = value.toString().toLowerCase();
+            final String lowercase = value.toString().toLowerCase(Locale.ROOT);
             return lowercase.equals("true") || lowercase.equals("false");
         }
         return true;
-- 
2.43.0


From f9947fd0cf2a390b7c18aa49e3b2124c8a595104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 14/19] fix: allow aggregate functions over an array of one
 element

MIN(numbers) and the other aggregates failed with InvalidContainerType when
numbers had exactly one element.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MeanFunction.java | 3 +--
 .../boolparser/function/arithmetic/MedianFunction.java         | 2 +-
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/ModeFunction.java | 3 +--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java  | 3 +--
 7 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 3947c13..0f4a2d2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 import java.math.BigDecimal;
 import java.math.RoundingMode;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -48,7 +47,7 @@ public class AvgFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 279aa49..d063010 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MaxFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
index 36ba128..f14e1b4 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
@@ -1,7 +1,6 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -26,7 +25,7 @@ public class MeanFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
index 90f0d12..86c5061 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
@@ -47,7 +47,7 @@ public class MedianFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index 6b065d6..f4144e6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MinFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..685a595 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -56,7 +55,7 @@ public class ModeFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 059611e..213fbce 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -47,7 +46,7 @@ public class SumFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.values());
     }
 
     @Override
-- 
2.43.0


From a7ca7fddcd903cb1092c4c041654a039635c6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:59 +0000
Subject: [PATCH 15/19] fix: LEN of an array that has no element or a single
 string element

LEN(items) failed for an empty array, and was the length of the string for an
array of one string.
---
 .../application/ArithmeticExpressionEvaluator.java           | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 56f4e71..324eeaf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -1,11 +1,13 @@
 package com.github.sidhant92.boolparser.application;
 
+import java.util.Collection;
 import java.util.List;
 import java.util.Map;
 import java.util.Optional;
 import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.domain.FieldNode;
@@ -79,6 +81,9 @@ public class ArithmeticExpressionEvaluator {
                 .stream()
                 .map(item -> evaluate(item, data))
                 .collect(Collectors.toList());
+        if (arithmeticFunctionNode.getFunctionType() == FunctionType.LEN && resolvedValues.size() == 1 && resolvedValues.get(0) instanceof Collection) {
+            return ((Collection<?>) resolvedValues.get(0)).size();
+        }
         final List<EvaluatedNode> flattenedValues = ValueUtils.mapToEvaluatedNodes(resolvedValues);
         return functionEvaluatorService.evaluateArithmeticFunction(arithmeticFunctionNode.getFunctionType(), flattenedValues);
     }
-- 
2.43.0


From b91eaa4f88745f4e2945f36ad174d3f3971ff28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 16/19] fix: CONTAINS_ANY and CONTAINS_ALL compare elements by
 their own type

The elements of the array were all compared as text, so an array with 2.0 did
not contain 2 although '2.0 = 2', and collections that are no List failed with
a ClassCastException.
---
 .../boolparser/operator/comparison/ContainsAllOperator.java | 6 ++++--
 .../boolparser/operator/comparison/ContainsAnyOperator.java | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..d74a944 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -8,6 +9,7 @@ import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -21,8 +23,8 @@ public class ContainsAllOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
+                .map(a -> Pair.of(a, ValueUtils.getDataType(a)))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..872eb1c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.operator.comparison;
 
 import java.util.Arrays;
+import java.util.Collection;
 import java.util.Collections;
 import java.util.List;
 import java.util.stream.Collectors;
@@ -8,6 +9,7 @@ import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -21,8 +23,8 @@ public class ContainsAnyOperator extends AbstractOperator {
             return false;
         }
         final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+                .stream(leftOperand instanceof Object[] ? (Object[]) leftOperand : ((Collection<?>) leftOperand).toArray())
+                .map(a -> Pair.of(a, ValueUtils.getDataType(a)))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-- 
2.43.0


From 4a1157c8249af2567b14ec063e71a868b60e708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:59 +0000
Subject: [PATCH 17/19] fix: reject dates that do not exist instead of
 adjusting them

2023-02-30 was silently read as 2023-02-28, so that it compared equal to it.
---
 .../github/sidhant92/boolparser/datatype/DateDataType.java   | 3 ++-
 .../sidhant92/boolparser/datatype/DateTimeDataType.java      | 3 ++-
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
index 999e616..7fa1e5a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDate;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateDataType extends AbstractDataType<LocalDate> {
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
 
     public DateDataType() {
         super(LocalDate.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
index 3418b46..fca3a35 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateTimeDataType extends AbstractDataType<LocalDateTime> {
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     public DateTimeDataType() {
         super(LocalDateTime.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 4f3f8d3..72155d7 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -5,6 +5,7 @@ import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.ArrayList;
 import java.util.Arrays;
 import java.util.Collection;
@@ -160,8 +161,8 @@ public class ValueUtils {
         return DataType.STRING;
     }
 
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     private static Optional<LocalDate> parseDate(String dateString) {
         try {
-- 
2.43.0


From 4041cb1d21ad6c46cd824c8fe145be046c2908ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 18/19] fix: fail on a date literal that is no date instead of
 using null

The arithmetic evaluator answered Success(null) for 2023-13-45.
---
 .../com/github/sidhant92/boolparser/util/ValueUtils.java     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 72155d7..421c147 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -16,6 +16,7 @@ import java.util.stream.Collectors;
 import org.apache.maven.artifact.versioning.ComparableVersion;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.exception.InvalidDataType;
 
 public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
@@ -73,9 +74,9 @@ public class ValueUtils {
             case VERSION:
                 return new ComparableVersion(value);
             case DATE:
-                return parseDate(value).orElse(null);
+                return parseDate(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid date %s", value)));
             case DATETIME:
-                return parseDateTime(value).orElse(null);
+                return parseDateTime(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid datetime %s", value)));
             default:
                 if (value.startsWith("'") && value.endsWith("'")) {
                     return value.substring(1, value.length() - 1);
-- 
2.43.0


From 07115cca58941a2438d60269e24307700fd95a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:59 +0000
Subject: [PATCH 19/19] fix: MODE counts equal numbers of different type or
 scale together

MODE(2.5, 1.0, 1.00, 1) was 2.5: the arguments were counted by equals, for
which 1, 1.0 and 1.00 are three different objects.
---
 .../function/arithmetic/ModeFunction.java          | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 685a595..e31246a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -8,6 +8,8 @@ import java.util.Map;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
@@ -18,25 +20,27 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class ModeFunction extends AbstractFunction {
     @Override
     public Object evaluate(final List<EvaluatedNode> items) {
-        Map<Object, Integer> hm = new HashMap<Object, Integer>();
+        final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+        Map<BigDecimal, Integer> hm = new HashMap<>();
         int max = 1;
         Object temp = items.get(0).getValue();
 
         for (int i = 0; i < items.size(); i++) {
             final Object value = items.get(i).getValue();
+            final BigDecimal key = decimalDataType.getValue(value).get().stripTrailingZeros();
 
-            if (hm.get(value) != null) {
+            if (hm.get(key) != null) {
 
-                int count = hm.get(value);
+                int count = hm.get(key);
                 count++;
-                hm.put(value, count);
+                hm.put(key, count);
 
                 if (count > max) {
                     max = count;
                     temp = value;
                 }
             } else {
-                hm.put(value, 1);
+                hm.put(key, 1);
             }
         }
         if (temp instanceof BigDecimal) {
-- 
2.43.0

