From f8680562870c5f636a525103ec8bcfcfb0ce46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:47 +0000
Subject: [PATCH 01/22] fix: build the AST from the parse tree instead of a
 shared stack

Operands of nested functions, parenthesised groups, unary minus, NOT and bare
boolean fields were taken from the wrong stack entry, so min(1+2*3,100) gave 8
and 'a = 10 AND min(a+b,3) > 2' compared the wrong operands.
---
 .../parser/antlr/BooleanFilterListener.java   | 149 +++++-------------
 1 file changed, 43 insertions(+), 106 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
index 92c3423..dd0d82b 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterListener.java
@@ -2,11 +2,10 @@ package com.github.sidhant92.boolparser.parser.antlr;
 
 import java.util.List;
 import java.util.Objects;
-import java.util.Stack;
 import java.util.stream.Collectors;
-import org.antlr.v4.runtime.CommonToken;
 import org.antlr.v4.runtime.Token;
 import org.antlr.v4.runtime.tree.ParseTree;
+import org.antlr.v4.runtime.tree.ParseTreeProperty;
 import org.antlr.v4.runtime.tree.TerminalNodeImpl;
 import org.apache.commons.lang3.StringUtils;
 import com.github.sidhant92.boolparser.constant.FunctionType;
@@ -29,19 +28,14 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class BooleanFilterListener extends BooleanExpressionBaseListener {
     private Node node;
 
-    private final Stack<Node> currentNodes;
-
-    private org.antlr.v4.runtime.Token lastToken;
-
-    private int tokenCount;
+    private final ParseTreeProperty<Node> nodes;
 
     private final String defaultField;
 
     public BooleanFilterListener(final String defaultField) {
         this.defaultField = defaultField;
         this.node = null;
-        this.lastToken = null;
-        this.currentNodes = new Stack<>();
+        this.nodes = new ParseTreeProperty<>();
     }
 
     public Node getNode() {
@@ -50,27 +44,25 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitComparatorExpression(BooleanExpressionParser.ComparatorExpressionContext ctx) {
-        currentNodes.add(mapComparatorExpressionContext(ctx));
+        nodes.put(ctx, mapComparatorExpressionContext(ctx));
         super.enterComparatorExpression(ctx);
     }
 
     @Override
     public void exitArithmeticExpression(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
-        currentNodes.add(mapArithmeticExpressionContext(ctx));
+        nodes.put(ctx, mapArithmeticExpressionContext(ctx));
         super.exitArithmeticExpression(ctx);
     }
 
     @Override
     public void exitUnaryArithmeticExpression(BooleanExpressionParser.UnaryArithmeticExpressionContext ctx) {
-        final Node leafNode = !currentNodes.isEmpty() && currentNodes.peek() instanceof ArithmeticNode ? currentNodes.pop() : mapTypesExpressionContext(
-                (BooleanExpressionParser.TypesExpressionContext) ctx.exp);
-        currentNodes.add(ArithmeticNode.builder().left(leafNode).operator(Operator.UNARY).build());
+        nodes.put(ctx, ArithmeticNode.builder().left(mapContextToNode(ctx.exp)).operator(Operator.UNARY).build());
         super.enterUnaryArithmeticExpression(ctx);
     }
 
     @Override
     public void exitToExpression(BooleanExpressionParser.ToExpressionContext ctx) {
-        currentNodes.add(mapToExpressionContext(ctx));
+        nodes.put(ctx, mapToExpressionContext(ctx));
         super.exitToExpression(ctx);
     }
 
@@ -80,20 +72,19 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
         final String field = getField(ctx.field.getText());
         final List<Node> items = getArrayElements(ctx.data.children);
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        currentNodes.add(new ArrayNode(field, operator, items));
+        nodes.put(ctx, new ArrayNode(field, operator, items));
         super.exitArrayExpression(ctx);
     }
 
     @Override
     public void exitArithmeticFunctionExpression(BooleanExpressionParser.ArithmeticFunctionExpressionContext ctx) {
-        final Node node = mapArithmeticFunctionExpressionContext(ctx);
-        currentNodes.add(node);
+        nodes.put(ctx, mapArithmeticFunctionExpressionContext(ctx));
         super.exitArithmeticFunctionExpression(ctx);
     }
 
     @Override
     public void exitInExpression(BooleanExpressionParser.InExpressionContext ctx) {
-        currentNodes.add(mapInExpressionContext(ctx));
+        nodes.put(ctx, mapInExpressionContext(ctx));
         super.exitInExpression(ctx);
     }
 
@@ -106,35 +97,29 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
     }
 
     private Node mapContextToNode(final ParseTree ctx) {
-        if (ctx instanceof BooleanExpressionParser.ArithmeticExpressionContext) {
-            return mapArithmeticExpressionContext((BooleanExpressionParser.ArithmeticExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.InExpressionContext) {
-            return mapInExpressionContext((BooleanExpressionParser.InExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ArithmeticFunctionExpressionContext) {
-            return mapArithmeticFunctionExpressionContext((BooleanExpressionParser.ArithmeticFunctionExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ComparatorExpressionContext) {
-            return mapComparatorExpressionContext((BooleanExpressionParser.ComparatorExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.ToExpressionContext) {
-            return mapToExpressionContext((BooleanExpressionParser.ToExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && ((BooleanExpressionParser.TypesExpressionContext) ctx).start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else if (ctx instanceof BooleanExpressionParser.TypesExpressionContext) {
-            return mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx);
-        } else {
-            throw new InvalidExpressionException(String.format("Array does not support this expression %s", ctx.getText()));
+        final Node mappedNode = nodes.get(ctx);
+        if (mappedNode == null) {
+            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
+        }
+        return mappedNode;
+    }
+
+    private Node mapLogicalOperand(final ParseTree ctx) {
+        if (ctx instanceof BooleanExpressionParser.TypesExpressionContext && StringUtils.isBlank(ctx.getText())) {
+            throw new InvalidExpressionException("Error parsing expression (missing operand)");
         }
+        return mapContextToNode(ctx);
     }
 
     private FieldNode mapTypesExpressionContextField(BooleanExpressionParser.TypesExpressionContext ctx) {
-        final String value = StringUtils.isBlank(ctx.getText()) ? defaultField : ctx.getText();
-        return new FieldNode(value);
+        if (StringUtils.isBlank(ctx.getText()) && StringUtils.isBlank(defaultField)) {
+            throw new InvalidExpressionException("Error parsing expression (missing operand)");
+        }
+        return new FieldNode(getField(ctx.getText()));
     }
 
     private Node mapTypesExpressionContext(BooleanExpressionParser.TypesExpressionContext ctx) {
-        if (ctx.start.getType() == BooleanExpressionLexer.FIELD) {
-            return mapTypesExpressionContextField(ctx);
-        }
-        if (StringUtils.isBlank(ctx.getText())) {
+        if (StringUtils.isBlank(ctx.getText()) || ctx.start.getType() == BooleanExpressionLexer.FIELD) {
             return mapTypesExpressionContextField(ctx);
         }
         final DataType dataType = getDataType(ctx.start);
@@ -155,46 +140,14 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     private ComparisonNode mapComparatorExpressionContext(BooleanExpressionParser.ComparatorExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-
-        if (!currentNodes.isEmpty() && ((ctx.right instanceof BooleanExpressionParser.ParentExpressionContext || ctx.left instanceof BooleanExpressionParser.ParentExpressionContext) || !(currentNodes.peek() instanceof ComparisonNode || currentNodes.peek() instanceof BooleanNode))) {
-            if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.left.getStart());
-                final Node value = mapContextToNode(ctx.left);
-                return new ComparisonNode(value, currentNodes.pop(), operator, dataType);
-            } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-                final DataType dataType = getDataType(ctx.right.getStart());
-                final Node value = mapContextToNode(ctx.right);
-                return new ComparisonNode(currentNodes.pop(), value, operator, dataType);
-            }
-        }
-
-        final DataType dataType = getDataType(ctx.right.getStart());
-        final Node value = mapContextToNode(ctx.right);
-        return new ComparisonNode(mapContextToNode(ctx.left), value, operator, dataType);
+        final boolean useLeftType = ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && !(ctx.right instanceof BooleanExpressionParser.TypesExpressionContext);
+        final DataType dataType = getDataType(useLeftType ? ctx.left.getStart() : ctx.right.getStart());
+        return new ComparisonNode(mapContextToNode(ctx.left), mapContextToNode(ctx.right), operator, dataType);
     }
 
     private ArithmeticNode mapArithmeticExpressionContext(BooleanExpressionParser.ArithmeticExpressionContext ctx) {
         final Operator operator = Operator.getOperatorFromSymbol(ctx.op.getText()).orElse(Operator.EQUALS);
-        if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext && ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.left instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node left = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.left);
-            final Node right = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else if (ctx.right instanceof BooleanExpressionParser.TypesExpressionContext) {
-            final Node right = mapTypesExpressionContext((BooleanExpressionParser.TypesExpressionContext) ctx.right);
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        } else {
-            if (currentNodes.size() < 2) {
-                throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-            }
-            final Node right = currentNodes.pop();
-            final Node left = currentNodes.pop();
-            return ArithmeticNode.builder().left(left).right(right).operator(operator).build();
-        }
+        return ArithmeticNode.builder().left(mapContextToNode(ctx.left)).right(mapContextToNode(ctx.right)).operator(operator).build();
     }
 
     private Node mapInExpressionContext(BooleanExpressionParser.InExpressionContext ctx) {
@@ -262,50 +215,34 @@ public class BooleanFilterListener extends BooleanExpressionBaseListener {
 
     @Override
     public void exitParse(BooleanExpressionParser.ParseContext ctx) {
-        if (this.node == null && !this.currentNodes.isEmpty()) {
-            this.node = currentNodes.pop();
-        }
-        if (this.node == null && tokenCount == 1 && lastToken instanceof CommonToken) {
-            this.node = lastToken.getType() == BooleanExpressionLexer.FIELD ? FieldNode.builder().field(lastToken.getText()).build() : UnaryNode
-                    .builder().dataType(DataType.STRING).value(ValueUtils.convertValue(lastToken.getText(), DataType.STRING).toString()).build();
-        }
-        if (this.node == null) {
-            throw new InvalidExpressionException(String.format("Error parsing expression for the string %s", ctx.getText()));
-        }
+        this.node = mapLogicalOperand(ctx.expression());
         super.exitParse(ctx);
     }
 
+    @Override
+    public void exitParentExpression(BooleanExpressionParser.ParentExpressionContext ctx) {
+        nodes.put(ctx, mapLogicalOperand(ctx.expression()));
+        super.exitParentExpression(ctx);
+    }
+
     @Override
     public void exitNotExpression(BooleanExpressionParser.NotExpressionContext ctx) {
-        if (currentNodes.isEmpty()) {
-            if (lastToken == null) {
-                throw new InvalidExpressionException(String.format("Error parsing not expression for the string %s", ctx.getText()));
-            }
-            final DataType dataType = getDataType(lastToken);
-            final Object value = ValueUtils.convertValue(lastToken.getText(), dataType);
-            currentNodes.add(new UnaryNode(dataType, value));
-        }
-        final BooleanNode booleanToken = new BooleanNode(currentNodes.pop(), null, LogicalOperationType.NOT);
-        currentNodes.add(booleanToken);
+        final Node operand = mapLogicalOperand(ctx.expression());
+        final Node value = operand instanceof FieldNode ? new UnaryNode(DataType.STRING, ((FieldNode) operand).getField()) : operand;
+        nodes.put(ctx, new BooleanNode(value, null, LogicalOperationType.NOT));
         super.exitNotExpression(ctx);
     }
 
     @Override
     public void exitTypesExpression(BooleanExpressionParser.TypesExpressionContext ctx) {
-        tokenCount++;
-        this.lastToken = ctx.start;
+        nodes.put(ctx, mapTypesExpressionContext(ctx));
+        super.exitTypesExpression(ctx);
     }
 
     @Override
     public void exitBinaryExpression(BooleanExpressionParser.BinaryExpressionContext ctx) {
-        if (currentNodes.size() < 2) {
-            throw new InvalidExpressionException(String.format("Error parsing binary expression for the string %s", ctx.getText()));
-        }
-        final Node firstNode = currentNodes.pop();
-        final Node secondNode = currentNodes.pop();
         final LogicalOperationType operator = getLogicalOperator(ctx.op.getStart());
-        final BooleanNode booleanToken = new BooleanNode(secondNode, firstNode, operator);
-        currentNodes.add(booleanToken);
+        nodes.put(ctx, new BooleanNode(mapLogicalOperand(ctx.left), mapLogicalOperand(ctx.right), operator));
         super.enterBinaryExpression(ctx);
     }
 }
-- 
2.43.0


From 1bc94532c3567c4442050370bcafdcf617198004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 02/22] fix: evaluate a bare boolean field and reject
 arithmetic in boolean position

'active' or 'active AND x = 1' silently evaluated to false; a number where a
boolean is needed did too instead of failing.
---
 .../application/BooleanExpressionEvaluator.java      | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 55375a6..8c23714 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -23,6 +23,7 @@ import com.github.sidhant92.boolparser.domain.arithmetic.ArithmeticBaseNode;
 import com.github.sidhant92.boolparser.exception.DataNotFoundException;
 import com.github.sidhant92.boolparser.exception.HeterogeneousArrayException;
 import com.github.sidhant92.boolparser.exception.InvalidUnaryOperand;
+import com.github.sidhant92.boolparser.exception.UnsupportedToken;
 import com.github.sidhant92.boolparser.operator.OperatorService;
 import com.github.sidhant92.boolparser.parser.BoolExpressionParser;
 import com.github.sidhant92.boolparser.util.ValueUtils;
@@ -68,8 +69,10 @@ public class BooleanExpressionEvaluator {
                 return evaluateUnaryToken((UnaryNode) node, data);
             case BOOLEAN:
                 return evaluateBooleanNode((BooleanNode) node, data);
+            case FIELD:
+                return evaluateBooleanField(((FieldNode) node).getField(), data);
             default:
-                return false;
+                throw new UnsupportedToken(node.getTokenType().name());
         }
     }
 
@@ -161,8 +164,11 @@ public class BooleanExpressionEvaluator {
         if (unaryToken.getDataType().equals(DataType.BOOLEAN)) {
             return (boolean) unaryToken.getValue();
         }
-        final Object fieldData = ValueUtils.getValueFromMap(unaryToken.getValue().toString(), data)
-                                           .orElseThrow(() -> new DataNotFoundException(unaryToken.getValue().toString()));
+        return evaluateBooleanField(unaryToken.getValue().toString(), data);
+    }
+
+    private boolean evaluateBooleanField(final String field, final Map<String, Object> data) {
+        final Object fieldData = ValueUtils.getValueFromMap(field, data).orElseThrow(() -> new DataNotFoundException(field));
         if (!(fieldData instanceof Boolean)) {
             throw new InvalidUnaryOperand();
         }
-- 
2.43.0


From 70541c111d28af871138e0009e115e8810707f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 03/22] fix: decide null checks by the presence of the other
 operand

'null = x' was always true, the string "null" counted as missing, and a missing
right operand surfaced as NoSuchElementException instead of DataNotFoundException.
---
 .../BooleanExpressionEvaluator.java           | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
index 8c23714..bbd1edb 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/BooleanExpressionEvaluator.java
@@ -92,17 +92,28 @@ public class BooleanExpressionEvaluator {
     }
 
     private boolean evaluateComparisonToken(final ComparisonNode comparisonToken, final Map<String, Object> data) {
-        final Optional<Object> leftValueOptional = getValue(comparisonToken.getLeft(), data);
-
-        final Object leftData = comparisonToken.isNullCheck() ? leftValueOptional.orElse("null") : leftValueOptional.orElseThrow(
-                () -> new DataNotFoundException(((FieldNode) comparisonToken.getLeft()).getField()));
-        final Object rightData = comparisonToken.isNullCheck() ? "null" : getValue(comparisonToken.getRight(), data).get();
+        if (comparisonToken.isNullCheck()) {
+            return evaluateNullCheck(comparisonToken, data);
+        }
+        final Object leftData = getRequiredValue(comparisonToken.getLeft(), data);
+        final Object rightData = getRequiredValue(comparisonToken.getRight(), data);
         final DataType rightDataType = ValueUtils.getDataType(rightData);
         final DataType leftDataType = ValueUtils.getDataType(leftData);
         return operatorService.evaluateLogicalOperator(comparisonToken.getOperator(), ContainerDataType.PRIMITIVE, leftData, leftDataType,
                                                        Collections.singletonList(Pair.of(rightData, rightDataType)));
     }
 
+    private boolean evaluateNullCheck(final ComparisonNode comparisonToken, final Map<String, Object> data) {
+        final Node left = comparisonToken.getLeft();
+        final Node operand = left instanceof FieldNode && ((FieldNode) left).isNull() ? comparisonToken.getRight() : left;
+        final boolean present = getValue(operand, data).isPresent();
+        return comparisonToken.getOperator() == Operator.EQUALS ? !present : present;
+    }
+
+    private Object getRequiredValue(final Node node, final Map<String, Object> data) {
+        return getValue(node, data).orElseThrow(() -> new DataNotFoundException(((FieldNode) node).getField()));
+    }
+
     private boolean evaluateNumericRangeToken(final NumericRangeNode numericRangeToken, final Map<String, Object> data) {
         final Object fieldData = ValueUtils.getValueFromMap(numericRangeToken.getField(), data)
                                            .orElseThrow(() -> new DataNotFoundException(numericRangeToken.getField()));
-- 
2.43.0


From 0532b73e943346222eddf6c1357e292b62da562c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 04/22] fix: key the parser cache by expression and default
 field separately

Joining both with an underscore let ('> a_b', 'c') answer for ('> a', 'b_c').
---
 .../sidhant92/boolparser/parser/antlr/CachedBoolParser.java  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
index 2c6289f..8d8681c 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/CachedBoolParser.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.parser.antlr;
 
 import java.util.Optional;
+import org.apache.commons.lang3.tuple.Pair;
 import com.github.benmanes.caffeine.cache.Cache;
 import com.github.benmanes.caffeine.cache.Caffeine;
 import com.github.sidhant92.boolparser.domain.logical.Node;
@@ -8,7 +9,7 @@ import com.github.sidhant92.boolparser.operator.OperatorFactory;
 import io.vavr.control.Try;
 
 public class CachedBoolParser extends BoolParser {
-    private final Cache<String, Node> cache;
+    private final Cache<Pair<String, String>, Node> cache;
 
     public CachedBoolParser(final int maxCacheSize) {
         OperatorFactory.initialize();
@@ -26,7 +27,7 @@ public class CachedBoolParser extends BoolParser {
     }
 
     private Node getNode(final String expression, final String defaultField) {
-        final String cacheKey = expression + "_" + Optional.ofNullable(defaultField).orElse("");
+        final Pair<String, String> cacheKey = Pair.of(expression, Optional.ofNullable(defaultField).orElse(""));
         return cache.get(cacheKey, ex -> super.parse(expression, defaultField));
     }
 }
-- 
2.43.0


From 0400e684662f165847e0ab8a4e61f9ce949fbb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 05/22] fix: do not wrap around on integer overflow in + - *
 and unary minus

Int results that leave the int range become long, as + and * already did; a
result outside the long range fails instead of wrapping silently.
---
 .../boolparser/operator/arithmetic/AddOperator.java    |  2 +-
 .../operator/arithmetic/MultiplyOperator.java          |  2 +-
 .../operator/arithmetic/SubtractOperator.java          | 10 +++-------
 .../boolparser/operator/arithmetic/UnaryOperator.java  |  6 ++----
 4 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
index d26a62b..2a80de1 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/AddOperator.java
@@ -28,7 +28,7 @@ public class AddOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().add(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() + longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.addExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
index 931a3ff..4e729b2 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/MultiplyOperator.java
@@ -24,7 +24,7 @@ public class MultiplyOperator extends AbstractOperator {
             return decimalDataType.getValue(leftOperand).get().multiply(decimalDataType.getValue(rightOperand).get());
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        return ValueUtils.castLong(longDataType.getValue(leftOperand).get() * longDataType.getValue(rightOperand).get());
+        return ValueUtils.castLong(Math.multiplyExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
index fc4917c..bc5c76a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/SubtractOperator.java
@@ -8,8 +8,8 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
-import com.github.sidhant92.boolparser.datatype.IntegerDataType;
 import com.github.sidhant92.boolparser.datatype.LongDataType;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -23,12 +23,8 @@ public class SubtractOperator extends AbstractOperator {
             final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
             return decimalDataType.getValue(leftOperand).get().subtract(decimalDataType.getValue(rightOperand).get());
         }
-        if (leftOperandDataType.equals(DataType.LONG) || rightOperandDataType.equals(DataType.LONG)) {
-            final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return longDataType.getValue(leftOperand).get() - longDataType.getValue(rightOperand).get();
-        }
-        final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
-        return integerDataType.getValue(leftOperand).get() - integerDataType.getValue(rightOperand).get();
+        final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
+        return ValueUtils.castLong(Math.subtractExact(longDataType.getValue(leftOperand).get(), longDataType.getValue(rightOperand).get()));
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index 8c0675c..b325b8b 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -7,6 +7,7 @@ import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +20,7 @@ public class UnaryOperator extends AbstractOperator {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
             return ((BigDecimal) leftOperand).negate();
         }
-        if (leftOperandDataType.equals(DataType.LONG)) {
-            return -(long) leftOperand;
-        }
-        return -(int) leftOperand;
+        return ValueUtils.castLong(Math.negateExact(((Number) leftOperand).longValue()));
     }
 
     @Override
-- 
2.43.0


From da86a9b9d3e1a7b0740ecae480aabfe04f1d16cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 06/22] fix: negate Double and Float operands

Unary minus on a Double or Float field failed with a ClassCastException.
---
 .../boolparser/operator/arithmetic/UnaryOperator.java          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
index b325b8b..713c7df 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/arithmetic/UnaryOperator.java
@@ -7,6 +7,7 @@ import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
@@ -18,7 +19,7 @@ public class UnaryOperator extends AbstractOperator {
     public Object evaluate(final Object leftOperand, final DataType leftOperandDataType, final Object rightOperand,
                            final DataType rightOperandDataType) {
         if (leftOperandDataType.equals(DataType.DECIMAL)) {
-            return ((BigDecimal) leftOperand).negate();
+            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(leftOperand).get()).negate();
         }
         return ValueUtils.castLong(Math.negateExact(((Number) leftOperand).longValue()));
     }
-- 
2.43.0


From 9a57cc126a70e9acc17f95b6b19f0cec289714fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 07/22] fix: keep whole results beyond the int range exact

Integral quotients and aggregates above Integer.MAX_VALUE failed with 'Overflow',
min/max/sum of longs went through double and lost digits, and sum wrapped around.
---
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java | 4 ++--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java | 4 ++--
 .../java/com/github/sidhant92/boolparser/util/ValueUtils.java | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 5f3b8a8..279aa49 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -39,8 +39,8 @@ public class MaxFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).max().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index b18bcb8..6b065d6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -39,8 +39,8 @@ public class MinFunction extends AbstractFunction {
         if (items
                 .stream().anyMatch(a -> a.getDataType().equals(DataType.LONG))) {
             final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-            return ValueUtils.castDecimal(items
-                                                  .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
+            return ValueUtils.castLong(items
+                                               .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).min().getAsLong());
         }
         final IntegerDataType integerDataType = (IntegerDataType) DataTypeFactory.getDataType(DataType.INTEGER);
         return ValueUtils.castDecimal(items
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 455339c..999e5c5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -36,8 +36,8 @@ public class SumFunction extends AbstractFunction {
         }
         final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
         final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(sum);
+                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).reduce(0L, Math::addExact);
+        return ValueUtils.castLong(sum);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 7e9e377..cac66b7 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -102,7 +102,7 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.intValueExact();
+            return value.abs().compareTo(BigDecimal.valueOf(Long.MAX_VALUE)) <= 0 ? castLong(value.longValueExact()) : value;
         }
         return value;
     }
-- 
2.43.0


From 0ea3a7e3fdd8641fd46ae494919dc20ac2e8ccd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 08/22] fix: round the average of whole numbers like that of
 decimals

avg(1, 2, 2) failed with 'Rounding necessary' because the quotient of whole
numbers had to fit two decimals exactly.
---
 .../function/arithmetic/AvgFunction.java      | 25 ++++++-------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 909c11e..1270b37 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -6,13 +6,11 @@ import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
-import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.datatype.DecimalDataType;
-import com.github.sidhant92.boolparser.datatype.LongDataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
@@ -23,22 +21,13 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class AvgFunction extends AbstractFunction {
     @Override
     public Object evaluate(final List<EvaluatedNode> items) {
-        if (items
-                .stream().anyMatch(a -> a.getDataType().equals(DataType.DECIMAL))) {
-            final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
-            final List<BigDecimal> itemsConverted = items
-                    .stream()
-                    .map(item -> decimalDataType.getValue(item.getValue()))
-                    .map(Optional::get)
-                    .collect(Collectors.toList());
-            final BigDecimal sum = itemsConverted
-                    .stream().reduce(BigDecimal.ZERO, BigDecimal::add);
-            return ValueUtils.castDecimal(sum.divide(new BigDecimal(itemsConverted.size()), 3, RoundingMode.DOWN));
-        }
-        final LongDataType longDataType = (LongDataType) DataTypeFactory.getDataType(DataType.LONG);
-        final long sum = items
-                .stream().mapToLong(a -> longDataType.getValue(a.getValue()).get()).sum();
-        return ValueUtils.castDecimal(new BigDecimal(sum).divide(new BigDecimal(items.size()), 2, RoundingMode.UNNECESSARY));
+        final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+        final BigDecimal sum = items
+                .stream()
+                .map(item -> decimalDataType.getValue(item.getValue()))
+                .map(Optional::get)
+                .reduce(BigDecimal.ZERO, BigDecimal::add);
+        return ValueUtils.castDecimal(sum.divide(new BigDecimal(items.size()), 3, RoundingMode.DOWN));
     }
 
     @Override
-- 
2.43.0


From c5e72ff0906e1dce2605769d2e790ae23c2716e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 09/22] fix: truncate instead of wrapping in INT beyond the int
 range

int(3000000000.7) gave -1294967296.
---
 .../boolparser/function/arithmetic/IntFunction.java        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
index d3a28de..e243edf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/IntFunction.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
+import java.math.RoundingMode;
 import java.util.Arrays;
 import java.util.Collections;
 import java.util.List;
@@ -9,6 +10,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 
 /**
  * @author sidhant.aggarwal
@@ -19,10 +21,11 @@ public class IntFunction extends AbstractFunction {
     public Object evaluate(final List<EvaluatedNode> items) {
         final EvaluatedNode item = items.get(0);
         if (item.getDataType() == DataType.DECIMAL) {
-            return ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).intValue();
+            return ValueUtils.castDecimal(
+                    ((BigDecimal) DataTypeFactory.getDataType(DataType.DECIMAL).getValue(item.getValue()).get()).setScale(0, RoundingMode.DOWN));
         }
         if (item.getDataType() == DataType.LONG) {
-            return ((Long) item.getValue()).intValue();
+            return ValueUtils.castLong((Long) item.getValue());
         }
         return item.getValue();
     }
-- 
2.43.0


From 8339935f8e6d9a71300a684be29f18716dcf96b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 10/22] fix: let aggregate functions take a single value

min, max, sum, avg, mean, median and mode failed with InvalidContainerType
whenever the list they were given happened to hold one element.
---
 .../sidhant92/boolparser/function/arithmetic/AvgFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MaxFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/MeanFunction.java | 3 +--
 .../boolparser/function/arithmetic/MedianFunction.java         | 2 +-
 .../sidhant92/boolparser/function/arithmetic/MinFunction.java  | 3 +--
 .../sidhant92/boolparser/function/arithmetic/ModeFunction.java | 3 +--
 .../sidhant92/boolparser/function/arithmetic/SumFunction.java  | 3 +--
 7 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
index 1270b37..740914e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/AvgFunction.java
@@ -3,7 +3,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 import java.math.BigDecimal;
 import java.math.RoundingMode;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
@@ -37,7 +36,7 @@ public class AvgFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
index 279aa49..9a8b087 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MaxFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MaxFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
index 36ba128..9c2e41e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MeanFunction.java
@@ -1,7 +1,6 @@
 package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
@@ -26,7 +25,7 @@ public class MeanFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
index 90f0d12..e4093ab 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MedianFunction.java
@@ -47,7 +47,7 @@ public class MedianFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
index 6b065d6..689ffdd 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/MinFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.Comparator;
 import java.util.List;
 import java.util.Optional;
@@ -54,7 +53,7 @@ public class MinFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index 01f9945..f2e34de 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.HashMap;
 import java.util.List;
 import java.util.Map;
@@ -56,7 +55,7 @@ public class ModeFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
index 999e5c5..5c454ab 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/SumFunction.java
@@ -2,7 +2,6 @@ package com.github.sidhant92.boolparser.function.arithmetic;
 
 import java.math.BigDecimal;
 import java.util.Arrays;
-import java.util.Collections;
 import java.util.List;
 import java.util.Optional;
 import java.util.stream.Collectors;
@@ -47,7 +46,7 @@ public class SumFunction extends AbstractFunction {
 
     @Override
     public List<ContainerDataType> getAllowedContainerTypes() {
-        return Collections.singletonList(ContainerDataType.LIST);
+        return Arrays.asList(ContainerDataType.PRIMITIVE, ContainerDataType.LIST);
     }
 
     @Override
-- 
2.43.0


From f63b102a0f2db01c957f3018049ec9eb6c505fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:52 +0000
Subject: [PATCH 11/22] fix: accept arrays and any collection where lists are
 accepted

CONTAINS_ANY/CONTAINS_ALL on a Set or an array failed with a ClassCastException
after passing validation, and functions counted an array as one value.
---
 .../operator/comparison/ContainsAllOperator.java     |  8 +++++---
 .../operator/comparison/ContainsAnyOperator.java     |  8 +++++---
 .../github/sidhant92/boolparser/util/ValueUtils.java | 12 ++++++++++--
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index c87b0b8..5dac757 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -8,6 +8,7 @@ import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -20,9 +21,10 @@ public class ContainsAllOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
-        final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+        final List<Pair<Object, DataType>> leftOperandArray = ValueUtils
+                .toCollection(leftOperand)
+                .stream()
+                .map(a -> Pair.of((Object) a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index 917135a..b76cba6 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -8,6 +8,7 @@ import org.apache.commons.lang3.tuple.Pair;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.Operator;
+import com.github.sidhant92.boolparser.util.ValueUtils;
 import lombok.AllArgsConstructor;
 
 @AllArgsConstructor
@@ -20,9 +21,10 @@ public class ContainsAnyOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
-        final List<Pair<Object, DataType>> leftOperandArray = Arrays
-                .stream(((List<?>) leftOperand).toArray())
-                .map(a -> Pair.of(a, leftOperandDataType))
+        final List<Pair<Object, DataType>> leftOperandArray = ValueUtils
+                .toCollection(leftOperand)
+                .stream()
+                .map(a -> Pair.of((Object) a, leftOperandDataType))
                 .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index cac66b7..dd99fdb 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -49,8 +49,8 @@ public class ValueUtils {
                     flattenedValues.add(node);
                 }
             }
-            if (value instanceof Collection) {
-                ((Collection<?>) value).forEach(
+            if (isContainer(value)) {
+                toCollection(value).forEach(
                         v -> flattenedValues.add(EvaluatedNode.builder().value(v).dataType(ValueUtils.getDataType(v)).build()));
             } else {
                 flattenedValues.add(EvaluatedNode.builder().value(value).dataType(ValueUtils.getDataType(value)).build());
@@ -59,6 +59,14 @@ public class ValueUtils {
         return flattenedValues;
     }
 
+    public static boolean isContainer(final Object value) {
+        return value instanceof Collection || value instanceof Object[];
+    }
+
+    public static Collection<?> toCollection(final Object container) {
+        return container instanceof Object[] ? Arrays.asList((Object[]) container) : (Collection<?>) container;
+    }
+
     public static Object convertValue(final String value, final DataType dataType) {
         switch (dataType) {
             case INTEGER:
-- 
2.43.0


From 4049e35a9c3d4476784616689957ce2553002e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:09 +0000
Subject: [PATCH 12/22] fix: count the elements of a list in LEN whatever they
 are

LEN of a list holding one string gave the length of the string, and LEN of an
empty list failed.
---
 .../boolparser/application/ArithmeticExpressionEvaluator.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
index 56f4e71..7c208d7 100644
--- a/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/application/ArithmeticExpressionEvaluator.java
@@ -6,6 +6,7 @@ import java.util.Optional;
 import java.util.stream.Collectors;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
+import com.github.sidhant92.boolparser.constant.FunctionType;
 import com.github.sidhant92.boolparser.constant.Operator;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.domain.FieldNode;
@@ -80,6 +81,9 @@ public class ArithmeticExpressionEvaluator {
                 .map(item -> evaluate(item, data))
                 .collect(Collectors.toList());
         final List<EvaluatedNode> flattenedValues = ValueUtils.mapToEvaluatedNodes(resolvedValues);
+        if (arithmeticFunctionNode.getFunctionType() == FunctionType.LEN && resolvedValues.size() == 1 && ValueUtils.isContainer(resolvedValues.get(0))) {
+            return flattenedValues.size();
+        }
         return functionEvaluatorService.evaluateArithmeticFunction(arithmeticFunctionNode.getFunctionType(), flattenedValues);
     }
 
-- 
2.43.0


From c9c351a7fda0063d99a548c9531f962c6ad013f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 13/22] fix: count numerically equal values together in MODE

mode(1.5, 2, 1.50) treated 1.5 and 1.50 as different values.
---
 .../boolparser/function/arithmetic/ModeFunction.java     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
index f2e34de..29d7e65 100644
--- a/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
+++ b/src/main/java/com/github/sidhant92/boolparser/function/arithmetic/ModeFunction.java
@@ -8,6 +8,8 @@ import java.util.Map;
 import com.github.sidhant92.boolparser.constant.ContainerDataType;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.constant.FunctionType;
+import com.github.sidhant92.boolparser.datatype.DataTypeFactory;
+import com.github.sidhant92.boolparser.datatype.DecimalDataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
 import com.github.sidhant92.boolparser.util.ValueUtils;
 
@@ -18,12 +20,13 @@ import com.github.sidhant92.boolparser.util.ValueUtils;
 public class ModeFunction extends AbstractFunction {
     @Override
     public Object evaluate(final List<EvaluatedNode> items) {
-        Map<Object, Integer> hm = new HashMap<Object, Integer>();
+        final DecimalDataType decimalDataType = (DecimalDataType) DataTypeFactory.getDataType(DataType.DECIMAL);
+        Map<BigDecimal, Integer> hm = new HashMap<>();
         int max = 1;
         Object temp = items.get(0).getValue();
 
         for (int i = 0; i < items.size(); i++) {
-            final Object value = items.get(i).getValue();
+            final BigDecimal value = decimalDataType.getValue(items.get(i).getValue()).get().stripTrailingZeros();
 
             if (hm.get(value) != null) {
 
@@ -33,7 +36,7 @@ public class ModeFunction extends AbstractFunction {
 
                 if (count > max) {
                     max = count;
-                    temp = value;
+                    temp = items.get(i).getValue();
                 }
             } else {
                 hm.put(value, 1);
-- 
2.43.0


From e5a65317e819f9fa77a33984c7542488b4911e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 14/22] fix: compare CONTAINS elements by value instead of by
 their text

[2.50] CONTAINS_ANY (2.5) and a date-time string against the equal date-time
literal were false because both sides were compared as strings.
---
 .../operator/comparison/ContainsAllOperator.java  | 15 +++++++++------
 .../operator/comparison/ContainsAnyOperator.java  | 15 +++++++++------
 .../sidhant92/boolparser/util/ValueUtils.java     |  7 +++++++
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
index 5dac757..2b340d3 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAllOperator.java
@@ -21,14 +21,17 @@ public class ContainsAllOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
-        final List<Pair<Object, DataType>> leftOperandArray = ValueUtils
-                .toCollection(leftOperand)
-                .stream()
-                .map(a -> Pair.of((Object) a, leftOperandDataType))
-                .collect(Collectors.toList());
         return rightOperands
                 .stream().allMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-                                                                       leftOperandArray));
+                                                                       getElements(leftOperand, rightOperand.getRight())));
+    }
+
+    private List<Pair<Object, DataType>> getElements(final Object container, final DataType itemDataType) {
+        return ValueUtils
+                .toCollection(container)
+                .stream()
+                .map(a -> Pair.of((Object) a, ValueUtils.getElementDataType(a, itemDataType)))
+                .collect(Collectors.toList());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
index b76cba6..b5e05f8 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/ContainsAnyOperator.java
@@ -21,14 +21,17 @@ public class ContainsAnyOperator extends AbstractOperator {
         if (!containerDataType.isValid(leftOperandDataType, leftOperand)) {
             return false;
         }
-        final List<Pair<Object, DataType>> leftOperandArray = ValueUtils
-                .toCollection(leftOperand)
-                .stream()
-                .map(a -> Pair.of((Object) a, leftOperandDataType))
-                .collect(Collectors.toList());
         return rightOperands
                 .stream().anyMatch(rightOperand -> inOperator.evaluate(ContainerDataType.PRIMITIVE, rightOperand.getLeft(), rightOperand.getRight(),
-                                                                       leftOperandArray));
+                                                                       getElements(leftOperand, rightOperand.getRight())));
+    }
+
+    private List<Pair<Object, DataType>> getElements(final Object container, final DataType itemDataType) {
+        return ValueUtils
+                .toCollection(container)
+                .stream()
+                .map(a -> Pair.of((Object) a, ValueUtils.getElementDataType(a, itemDataType)))
+                .collect(Collectors.toList());
     }
 
     @Override
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index dd99fdb..9a237d0 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -67,6 +67,13 @@ public class ValueUtils {
         return container instanceof Object[] ? Arrays.asList((Object[]) container) : (Collection<?>) container;
     }
 
+    public static DataType getElementDataType(final Object element, final DataType itemDataType) {
+        final List<DataType> numberTypes = Arrays.asList(DataType.INTEGER, DataType.LONG, DataType.DECIMAL);
+        final DataType elementDataType = getDataType(element);
+        final boolean comparable = elementDataType == itemDataType || (numberTypes.contains(elementDataType) && numberTypes.contains(itemDataType));
+        return comparable ? elementDataType : DataType.STRING;
+    }
+
     public static Object convertValue(final String value, final DataType dataType) {
         switch (dataType) {
             case INTEGER:
-- 
2.43.0


From b8837ca2a6b8fe432833bd42ab4e77336fb129b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 15/22] fix: read integers from text without expanding their
 exponent

Comparing an integer with the string "1e999999999" built the whole plain-text
number and died with an OutOfMemoryError.
---
 .../github/sidhant92/boolparser/datatype/IntegerDataType.java | 4 ++--
 .../github/sidhant92/boolparser/datatype/LongDataType.java    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
index 9dcaa8b..b57bbd5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/IntegerDataType.java
@@ -24,7 +24,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Integer.parseInt(number.stripTrailingZeros().toPlainString());
+                number.intValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class IntegerDataType extends AbstractDataType<Integer> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Integer.parseInt(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.intValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
index d68e242..0d5604a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/LongDataType.java
@@ -24,7 +24,7 @@ public class LongDataType extends AbstractDataType<Long> {
         if (!isValid) {
             try {
                 BigDecimal number = new BigDecimal(value.toString());
-                Long.parseLong(number.stripTrailingZeros().toPlainString());
+                number.longValueExact();
                 return true;
             } catch (Exception ex) {
                 return false;
@@ -49,7 +49,7 @@ public class LongDataType extends AbstractDataType<Long> {
         }
         try {
             BigDecimal number = new BigDecimal(value.toString());
-            return Optional.of(Long.parseLong(number.stripTrailingZeros().toPlainString()));
+            return Optional.of(number.longValueExact());
         } catch (final Exception ignored) {
         }
         return Optional.empty();
-- 
2.43.0


From 4ecfefe588da67394405ab09e430c42a2d4156b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 16/22] fix: reject dates that do not exist

2023-02-30 was silently read as 2023-02-28 and 24:00:00 as the next day; a date
literal such as 2023-13-45 became null and failed later with a NullPointerException.
---
 .../sidhant92/boolparser/datatype/DateDataType.java    |  3 ++-
 .../boolparser/datatype/DateTimeDataType.java          |  3 ++-
 .../github/sidhant92/boolparser/util/ValueUtils.java   | 10 ++++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
index 999e616..7fa1e5a 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDate;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateDataType extends AbstractDataType<LocalDate> {
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
 
     public DateDataType() {
         super(LocalDate.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
index 3418b46..fca3a35 100644
--- a/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/datatype/DateTimeDataType.java
@@ -3,6 +3,7 @@ package com.github.sidhant92.boolparser.datatype;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.constant.DataType;
 
@@ -11,7 +12,7 @@ import com.github.sidhant92.boolparser.constant.DataType;
  * @since 05/03/2023
  */
 public class DateTimeDataType extends AbstractDataType<LocalDateTime> {
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     public DateTimeDataType() {
         super(LocalDateTime.class);
diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index 9a237d0..a0bfe8d 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -5,6 +5,7 @@ import java.time.LocalDate;
 import java.time.LocalDateTime;
 import java.time.format.DateTimeFormatter;
 import java.time.format.DateTimeParseException;
+import java.time.format.ResolverStyle;
 import java.util.ArrayList;
 import java.util.Arrays;
 import java.util.Collection;
@@ -15,6 +16,7 @@ import java.util.stream.Collectors;
 import org.apache.maven.artifact.versioning.ComparableVersion;
 import com.github.sidhant92.boolparser.constant.DataType;
 import com.github.sidhant92.boolparser.domain.EvaluatedNode;
+import com.github.sidhant92.boolparser.exception.InvalidDataType;
 
 public class ValueUtils {
     public static Optional<Object> getValueFromMap(final String key, final Map<String, Object> data) {
@@ -87,9 +89,9 @@ public class ValueUtils {
             case VERSION:
                 return new ComparableVersion(value);
             case DATE:
-                return parseDate(value).orElse(null);
+                return parseDate(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid date %s", value)));
             case DATETIME:
-                return parseDateTime(value).orElse(null);
+                return parseDateTime(value).orElseThrow(() -> new InvalidDataType(String.format("Invalid datetime %s", value)));
             default:
                 if (value.startsWith("'") && value.endsWith("'")) {
                     return value.substring(1, value.length() - 1);
@@ -171,8 +173,8 @@ public class ValueUtils {
         return DataType.STRING;
     }
 
-    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd");
-    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("yyyy-MM-dd HH:mm:ss");
+    private static final DateTimeFormatter DATE_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd").withResolverStyle(ResolverStyle.STRICT);
+    private static final DateTimeFormatter DATETIME_FORMATTER = DateTimeFormatter.ofPattern("uuuu-MM-dd HH:mm:ss").withResolverStyle(ResolverStyle.STRICT);
 
     private static Optional<LocalDate> parseDate(String dateString) {
         try {
-- 
2.43.0


From 1223932f06e12390f49560a7435d405952d04271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 17/22] fix: reject expressions with syntax errors

'a = 10 garbage' or 'a = 10 b = 4' were recovered by dropping the part that does
not fit, and evaluated to the result of the rest.
---
 .../boolparser/parser/antlr/BoolParser.java   |  4 +++
 .../parser/antlr/SyntaxErrorListener.java     | 27 +++++++++++++++++++
 2 files changed, 31 insertions(+)
 create mode 100644 src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index 29f4454..c71bfad 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -32,8 +32,12 @@ public class BoolParser implements BoolExpressionParser {
 
     protected Node parse(final String expression, final String defaultField) {
         final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
+        filterLexer.removeErrorListeners();
+        filterLexer.addErrorListener(SyntaxErrorListener.INSTANCE);
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
         final BooleanExpressionParser filterParser = new BooleanExpressionParser(commonTokenStream);
+        filterParser.removeErrorListeners();
+        filterParser.addErrorListener(SyntaxErrorListener.INSTANCE);
         final ParseTree parseTree = filterParser.parse();
 
         final BooleanFilterListener listener = new BooleanFilterListener(defaultField);
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java
new file mode 100644
index 0000000..099e940
--- /dev/null
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/SyntaxErrorListener.java
@@ -0,0 +1,27 @@
+package com.github.sidhant92.boolparser.parser.antlr;
+
+import org.antlr.v4.runtime.BaseErrorListener;
+import org.antlr.v4.runtime.InputMismatchException;
+import org.antlr.v4.runtime.RecognitionException;
+import org.antlr.v4.runtime.Recognizer;
+import org.antlr.v4.runtime.Token;
+import com.github.sidhant92.boolparser.exception.InvalidExpressionException;
+
+/**
+ * Rejects expressions with a syntax error. Only a closing parenthesis may be missing, at the end of the expression.
+ */
+class SyntaxErrorListener extends BaseErrorListener {
+    static final SyntaxErrorListener INSTANCE = new SyntaxErrorListener();
+
+    @Override
+    public void syntaxError(final Recognizer<?, ?> recognizer, final Object offendingSymbol, final int line, final int charPositionInLine,
+                            final String message, final RecognitionException exception) {
+        final boolean atEnd = offendingSymbol instanceof Token && ((Token) offendingSymbol).getType() == Token.EOF;
+        final boolean unclosed = exception == null ? message.startsWith("missing ')'") : exception instanceof InputMismatchException && exception
+                .getExpectedTokens().contains(BooleanExpressionParser.RPAREN);
+        if (atEnd && unclosed) {
+            return;
+        }
+        throw new InvalidExpressionException(String.format("Error parsing expression at %d:%d %s", line, charPositionInLine, message));
+    }
+}
-- 
2.43.0


From 74c7eeb8068cd8c55583510ae32a6454fe403099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:24 +0000
Subject: [PATCH 18/22] fix: read 10.20.30 as a version

Versions whose first component has several digits were read as field names.
---
 .../boolparser/parser/antlr/BoolParser.java   |  2 +-
 .../parser/antlr/BooleanFilterLexer.java      | 24 +++++++++++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)
 create mode 100644 src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterLexer.java

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index c71bfad..c6a3388 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -31,7 +31,7 @@ public class BoolParser implements BoolExpressionParser {
     }
 
     protected Node parse(final String expression, final String defaultField) {
-        final BooleanExpressionLexer filterLexer = new BooleanExpressionLexer(CharStreams.fromString(expression));
+        final BooleanExpressionLexer filterLexer = new BooleanFilterLexer(CharStreams.fromString(expression));
         filterLexer.removeErrorListeners();
         filterLexer.addErrorListener(SyntaxErrorListener.INSTANCE);
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterLexer.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterLexer.java
new file mode 100644
index 0000000..c5e258e
--- /dev/null
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BooleanFilterLexer.java
@@ -0,0 +1,24 @@
+package com.github.sidhant92.boolparser.parser.antlr;
+
+import java.util.regex.Pattern;
+import org.antlr.v4.runtime.CharStream;
+import org.antlr.v4.runtime.Token;
+
+/**
+ * Recognises versions whose first component has more than one digit, which the generated lexer takes for a field.
+ */
+class BooleanFilterLexer extends BooleanExpressionLexer {
+    private static final Pattern VERSION_PATTERN = Pattern.compile("[0-9]+(\\.[0-9]+){2,}");
+
+    BooleanFilterLexer(final CharStream input) {
+        super(input);
+    }
+
+    @Override
+    public Token emit() {
+        if (_type == FIELD && VERSION_PATTERN.matcher(getText()).matches()) {
+            _type = APP_VERSION;
+        }
+        return super.emit();
+    }
+}
-- 
2.43.0


From d7fde4cfa6216fe77628c5854f18d836b9555655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 19/22] fix: match keywords in any case

The README documents operators and function names as case-insensitive, but only
all-lower and all-upper spellings were recognised.
---
 .../boolparser/parser/antlr/BoolParser.java   |  2 +-
 .../parser/antlr/UpperCaseCharStream.java     | 61 +++++++++++++++++++
 2 files changed, 62 insertions(+), 1 deletion(-)
 create mode 100644 src/main/java/com/github/sidhant92/boolparser/parser/antlr/UpperCaseCharStream.java

diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
index c6a3388..0c00106 100644
--- a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/BoolParser.java
@@ -31,7 +31,7 @@ public class BoolParser implements BoolExpressionParser {
     }
 
     protected Node parse(final String expression, final String defaultField) {
-        final BooleanExpressionLexer filterLexer = new BooleanFilterLexer(CharStreams.fromString(expression));
+        final BooleanExpressionLexer filterLexer = new BooleanFilterLexer(new UpperCaseCharStream(CharStreams.fromString(expression)));
         filterLexer.removeErrorListeners();
         filterLexer.addErrorListener(SyntaxErrorListener.INSTANCE);
         final CommonTokenStream commonTokenStream = new CommonTokenStream(filterLexer);
diff --git a/src/main/java/com/github/sidhant92/boolparser/parser/antlr/UpperCaseCharStream.java b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/UpperCaseCharStream.java
new file mode 100644
index 0000000..7ac5ff1
--- /dev/null
+++ b/src/main/java/com/github/sidhant92/boolparser/parser/antlr/UpperCaseCharStream.java
@@ -0,0 +1,61 @@
+package com.github.sidhant92.boolparser.parser.antlr;
+
+import org.antlr.v4.runtime.CharStream;
+import org.antlr.v4.runtime.misc.Interval;
+
+/**
+ * Shows the lexer upper case letters, so that keywords match in any case, while the text of the tokens stays as written.
+ */
+class UpperCaseCharStream implements CharStream {
+    private final CharStream delegate;
+
+    UpperCaseCharStream(final CharStream delegate) {
+        this.delegate = delegate;
+    }
+
+    @Override
+    public int LA(final int offset) {
+        final int symbol = delegate.LA(offset);
+        return symbol >= 'a' && symbol <= 'z' ? symbol - 'a' + 'A' : symbol;
+    }
+
+    @Override
+    public String getText(final Interval interval) {
+        return delegate.getText(interval);
+    }
+
+    @Override
+    public void consume() {
+        delegate.consume();
+    }
+
+    @Override
+    public int mark() {
+        return delegate.mark();
+    }
+
+    @Override
+    public void release(final int marker) {
+        delegate.release(marker);
+    }
+
+    @Override
+    public int index() {
+        return delegate.index();
+    }
+
+    @Override
+    public void seek(final int index) {
+        delegate.seek(index);
+    }
+
+    @Override
+    public int size() {
+        return delegate.size();
+    }
+
+    @Override
+    public String getSourceName() {
+        return delegate.getSourceName();
+    }
+}
-- 
2.43.0


From d8b4a53fe4e8f84b06c9b775754adad813a65fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 20/22] fix: look up operators and functions independently of
 the default locale

Under a Turkish default locale min, int and contains_any were not found.
---
 .../github/sidhant92/boolparser/constant/FunctionType.java | 3 ++-
 .../com/github/sidhant92/boolparser/constant/Operator.java | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
index d47ff4b..c6db69e 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/FunctionType.java
@@ -1,6 +1,7 @@
 package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
+import java.util.Locale;
 import java.util.Optional;
 
 /**
@@ -20,7 +21,7 @@ public enum FunctionType {
     DAYS_ELAPSED;
 
     public static Optional<FunctionType> getArrayFunctionFromSymbol(final String symbol) {
-        final String symbolUpperCase = symbol.toUpperCase();
+        final String symbolUpperCase = symbol.toUpperCase(Locale.ROOT);
         return Arrays
                 .stream(FunctionType.values())
                 .filter(function -> function.name().equals(symbolUpperCase))
diff --git a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
index 2ec58fd..d040994 100644
--- a/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/constant/Operator.java
@@ -2,6 +2,7 @@ package com.github.sidhant92.boolparser.constant;
 
 import java.util.Arrays;
 import java.util.List;
+import java.util.Locale;
 import java.util.Optional;
 import com.github.sidhant92.boolparser.operator.comparison.AbstractOperator;
 import com.github.sidhant92.boolparser.operator.OperatorFactory;
@@ -36,10 +37,10 @@ public enum Operator {
     CONTAINS_ANY;
 
     public static Optional<Operator> getOperatorFromSymbol(final String symbol) {
-        final String symbolLowerCase = symbol.toLowerCase();
+        final String symbolLowerCase = symbol.toLowerCase(Locale.ROOT);
         final Optional<Operator> operator = OperatorFactory.getAllLogicalOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(AbstractOperator::getOperator)
                 .findFirst();
         if (operator.isPresent()) {
@@ -47,7 +48,7 @@ public enum Operator {
         }
         return OperatorFactory.getAllArithmeticOperators()
                 .stream()
-                .filter(op -> op.getSymbol().toLowerCase().equals(symbolLowerCase))
+                .filter(op -> op.getSymbol().toLowerCase(Locale.ROOT).equals(symbolLowerCase))
                 .map(com.github.sidhant92.boolparser.operator.arithmetic.AbstractOperator::getOperator)
                 .findFirst();
     }
-- 
2.43.0


From 54db95cf7f32f6c939d08f169f6e674c2c3a1635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 21/22] fix: compare versions for equality as versions

With a version held in a string, '= 1.5.9' compared text while '>=' and '<='
compared versions, so 1.5.9.0 was neither below, equal to nor above 1.5.9.
---
 .../boolparser/operator/comparison/EqualsOperator.java        | 4 ++++
 .../boolparser/operator/comparison/NotEqualsOperator.java     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java
index d2befb8..67faef5 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/EqualsOperator.java
@@ -27,6 +27,10 @@ public class EqualsOperator extends AbstractOperator {
     }
 
     private DataType getComparableDataType(final DataType leftOperandDataType, final DataType rightOperandDataType) {
+        final List<DataType> dataTypes = Arrays.asList(leftOperandDataType, rightOperandDataType);
+        if (dataTypes.contains(DataType.VERSION) && dataTypes.contains(DataType.STRING)) {
+            return DataType.VERSION;
+        }
         if (leftOperandDataType.priority > rightOperandDataType.priority) {
             return leftOperandDataType;
         }
diff --git a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java
index 8e1da31..83bdcbb 100644
--- a/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java
+++ b/src/main/java/com/github/sidhant92/boolparser/operator/comparison/NotEqualsOperator.java
@@ -27,6 +27,10 @@ public class NotEqualsOperator extends AbstractOperator {
     }
 
     private DataType getComparableDataType(final DataType leftOperandDataType, final DataType rightOperandDataType) {
+        final List<DataType> dataTypes = Arrays.asList(leftOperandDataType, rightOperandDataType);
+        if (dataTypes.contains(DataType.VERSION) && dataTypes.contains(DataType.STRING)) {
+            return DataType.VERSION;
+        }
         if (leftOperandDataType.priority > rightOperandDataType.priority) {
             return leftOperandDataType;
         }
-- 
2.43.0


From 7da4316f093849f69fb7c1f02bec2a43de89b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 22/22] fix: give the smallest long as a Long like every other
 whole result

---
 .../java/com/github/sidhant92/boolparser/util/ValueUtils.java  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
index a0bfe8d..43c3acf 100644
--- a/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
+++ b/src/main/java/com/github/sidhant92/boolparser/util/ValueUtils.java
@@ -119,7 +119,8 @@ public class ValueUtils {
 
     public static Object castDecimal(final BigDecimal value) {
         if (value.signum() == 0 || value.scale() <= 0 || value.stripTrailingZeros().scale() <= 0) {
-            return value.abs().compareTo(BigDecimal.valueOf(Long.MAX_VALUE)) <= 0 ? castLong(value.longValueExact()) : value;
+            final boolean isLong = value.compareTo(BigDecimal.valueOf(Long.MIN_VALUE)) >= 0 && value.compareTo(BigDecimal.valueOf(Long.MAX_VALUE)) <= 0;
+            return isLong ? castLong(value.longValueExact()) : value;
         }
         return value;
     }
-- 
2.43.0

