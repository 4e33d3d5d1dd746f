From 6080718d1663e1ce6e770e71ba0ea6948c8a9706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 01/17] fix: copy the lvalue operand before moving the other
 one, so that n += n works

---
 single/include/tomsolver/tomsolver.h | 10 ++++++++--
 src/tomsolver/node.h                 | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..13b7fd1 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -866,8 +866,14 @@ inline Node UnaryOperator(MathOperator op, T &&n) noexcept {
 template <typename T1, typename T2>
 inline Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     auto ret = std::make_unique<NodeImpl>(NodeType::OPERATOR, op, 0, "");
-    CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
-    CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    // n1和n2可能是同一个对象（例如 n += n），所以要在移动之前完成拷贝
+    if (std::is_lvalue_reference<T2>::value) {
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+    } else {
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    }
     return ret;
 }
 
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..ab544f9 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -179,8 +179,14 @@ Node UnaryOperator(MathOperator op, T &&n) noexcept {
 template <typename T1, typename T2>
 Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     auto ret = std::make_unique<NodeImpl>(NodeType::OPERATOR, op, 0, "");
-    CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
-    CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    // n1和n2可能是同一个对象（例如 n += n），所以要在移动之前完成拷贝
+    if (std::is_lvalue_reference<T2>::value) {
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+    } else {
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    }
     return ret;
 }
 
-- 
2.43.0


From 42e2e75dfcd686dc9f6ff9ecd16ccc20193a6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 02/17] fix: count closed parentheses, so that an extra ')' is
 a ParseError instead of popping an empty stack

---
 single/include/tomsolver/tomsolver.h | 1 +
 src/tomsolver/parse.cpp              | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 13b7fd1..8083dac 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3543,6 +3543,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
+            parenthesisBalance--;
             if (!tokenStack.empty() && IsFunction(tokenStack.top().node->op)) {
                 postOrder.emplace_back(popToken());
             }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..97dc16d 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -248,6 +248,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
+            parenthesisBalance--;
             if (!tokenStack.empty() && IsFunction(tokenStack.top().node->op)) {
                 postOrder.emplace_back(popToken());
             }
-- 
2.43.0


From 438447202e77c69d1416c5cbd761d48437aed9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 03/17] fix: report missing operands as ParseError and treat
 functions as prefix operators in Parse

---
 single/include/tomsolver/tomsolver.h | 26 ++++++++++++++++++++++++--
 src/tomsolver/parse.cpp              | 26 ++++++++++++++++++++++++--
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8083dac..b272e79 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3503,8 +3503,16 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder) {
     std::vector<Token> postOrder;
     int parenthesisBalance = 0;
+    bool expectOperand = true; // 前面的记号还缺少右侧的操作数
     std::stack<Token> tokenStack;
 
+    if (inOrder.empty()) {
+        throw SingleParseError(0, 0, "", "empty input");
+    }
+
+    const auto &last = inOrder.back();
+    const Token end(last.line, last.pos, last.isBaseOperator, last.s, last.content);
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -3519,6 +3527,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         // 数字直接入栈
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
+            expectOperand = false;
             postOrder.emplace_back(std::move(f));
             continue;
         case NodeType::OPERATOR:
@@ -3527,6 +3536,15 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             assert(0);
         };
 
+        // 右括号和二元运算符的左边必须是完整的操作数
+        auto isRightParenthesis = f.node->op == MathOperator::MATH_RIGHT_PARENTHESIS;
+        auto needLeftOperand = isRightParenthesis ||
+                               (f.node->op != MathOperator::MATH_LEFT_PARENTHESIS && GetOperatorNum(f.node->op) == 2);
+        if (expectOperand && needLeftOperand) {
+            throw SingleParseError(f.line, f.pos, f.content, "Operand expected before: \"", f.s, "\"");
+        }
+        expectOperand = !isRightParenthesis;
+
         switch (f.node->op) {
         case MathOperator::MATH_LEFT_PARENTHESIS:
             parenthesisBalance++;
@@ -3554,8 +3572,8 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             continue;
 
         default:
-            // 不是括号也不是正负号
-            if (!tokenStack.empty()) {
+            // 不是括号也不是正负号。函数是前缀运算符，不能挤出前面的符号
+            if (!tokenStack.empty() && !IsFunction(f.node->op)) {
                 auto compare =
                     IsLeft2Right(f.node->op)
                         ? std::function<bool(const Token &)>{[cmp = std::less_equal<>{}, rank = Rank(f.node->op)](
@@ -3580,6 +3598,10 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
+    if (expectOperand) {
+        throw SingleParseError(end.line, end.pos, end.content, "Operand expected after: \"", end.s, "\"");
+    }
+
     // 剩下的元素全部入栈
     while (!tokenStack.empty()) {
         auto token = popToken();
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 97dc16d..ea7dcf9 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -208,8 +208,16 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
 std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder) {
     std::vector<Token> postOrder;
     int parenthesisBalance = 0;
+    bool expectOperand = true; // 前面的记号还缺少右侧的操作数
     std::stack<Token> tokenStack;
 
+    if (inOrder.empty()) {
+        throw SingleParseError(0, 0, "", "empty input");
+    }
+
+    const auto &last = inOrder.back();
+    const Token end(last.line, last.pos, last.isBaseOperator, last.s, last.content);
+
     auto popToken = [&tokenStack] {
         auto r = std::move(tokenStack.top());
         tokenStack.pop();
@@ -224,6 +232,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         // 数字直接入栈
         case NodeType::NUMBER:
         case NodeType::VARIABLE:
+            expectOperand = false;
             postOrder.emplace_back(std::move(f));
             continue;
         case NodeType::OPERATOR:
@@ -232,6 +241,15 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             assert(0);
         };
 
+        // 右括号和二元运算符的左边必须是完整的操作数
+        auto isRightParenthesis = f.node->op == MathOperator::MATH_RIGHT_PARENTHESIS;
+        auto needLeftOperand = isRightParenthesis || (f.node->op != MathOperator::MATH_LEFT_PARENTHESIS &&
+                                                      GetOperatorNum(f.node->op) == 2);
+        if (expectOperand && needLeftOperand) {
+            throw SingleParseError(f.line, f.pos, f.content, "Operand expected before: \"", f.s, "\"");
+        }
+        expectOperand = !isRightParenthesis;
+
         switch (f.node->op) {
         case MathOperator::MATH_LEFT_PARENTHESIS:
             parenthesisBalance++;
@@ -259,8 +277,8 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             continue;
 
         default:
-            // 不是括号也不是正负号
-            if (!tokenStack.empty()) {
+            // 不是括号也不是正负号。函数是前缀运算符，不能挤出前面的符号
+            if (!tokenStack.empty() && !IsFunction(f.node->op)) {
                 auto compare =
                     IsLeft2Right(f.node->op)
                         ? std::function<bool(const Token &)>{[cmp = std::less_equal<>{}, rank = Rank(f.node->op)](
@@ -285,6 +303,10 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
         tokenStack.push(std::move(f)); // 高优先级已全部挤出，当前符号入栈
     }
 
+    if (expectOperand) {
+        throw SingleParseError(end.line, end.pos, end.content, "Operand expected after: \"", end.s, "\"");
+    }
+
     // 剩下的元素全部入栈
     while (!tokenStack.empty()) {
         auto token = popToken();
-- 
2.43.0


From ae0c4d569ad1de07d0efa73735b4a9111ddc9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 04/17] fix: Parse accepts numbers with a signed exponent,
 which ToString prints

---
 single/include/tomsolver/tomsolver.h | 20 +++++++++++++++++++-
 src/tomsolver/parse.cpp              | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index b272e79..983fb8b 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3377,6 +3377,22 @@ inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     return MathOperator::MATH_NULL;
 }
 
+/* iter指向的正负号是否属于科学计数法，例如 1.5e-3 里面的减号。begin是当前记号的开头，end是整个表达式的末尾 */
+inline bool IsExponentSign(const char *begin, const char *iter, const char *end) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    if ((*iter != '+' && *iter != '-') || iter + 1 == end || !isDigit(iter[1])) {
+        return false;
+    }
+    if (iter - begin < 2 || (iter[-1] != 'e' && iter[-1] != 'E')) {
+        return false;
+    }
+    return std::any_of(begin, iter - 1, isDigit) && std::all_of(begin, iter - 1, [&isDigit](char c) {
+               return isDigit(c) || c == '.';
+           });
+}
+
 inline MathOperator Str2Function(internal::StringView s) noexcept {
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
@@ -3478,7 +3494,9 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index ea7dcf9..ec7cb3c 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -82,6 +82,22 @@ MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     return MathOperator::MATH_NULL;
 }
 
+/* iter指向的正负号是否属于科学计数法，例如 1.5e-3 里面的减号。begin是当前记号的开头，end是整个表达式的末尾 */
+bool IsExponentSign(const char *begin, const char *iter, const char *end) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    if ((*iter != '+' && *iter != '-') || iter + 1 == end || !isDigit(iter[1])) {
+        return false;
+    }
+    if (iter - begin < 2 || (iter[-1] != 'e' && iter[-1] != 'E')) {
+        return false;
+    }
+    return std::any_of(begin, iter - 1, isDigit) && std::all_of(begin, iter - 1, [&isDigit](char c) {
+               return isDigit(c) || c == '.';
+           });
+}
+
 MathOperator Str2Function(internal::StringView s) noexcept {
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
@@ -183,7 +199,9 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
     };
 
     while (iter != content.end()) {
-        if (IsBasicOperator(*iter)) {
+        if (IsExponentSign(nameIter, iter, content.end())) {
+            ++iter;
+        } else if (IsBasicOperator(*iter)) {
             tryComfirmToken();
             auto unaryOp = ret.empty() || (ret.back().node->type == NodeType::OPERATOR &&
                                            ret.back().node->op != MathOperator::MATH_RIGHT_PARENTHESIS);
-- 
2.43.0


From 43a34caacd6914f8188b62e1688785ee725451fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 05/17] fix: Parse accepts asin, acos and atan, the names
 ToString prints

---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/parse.cpp              | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 983fb8b..d2d27aa 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3402,10 +3402,13 @@ inline MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index ec7cb3c..0c3d990 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -107,10 +107,13 @@ MathOperator Str2Function(internal::StringView s) noexcept {
     case "tan"_fnv1a:
         return MathOperator::MATH_TAN;
     case "arcsin"_fnv1a:
+    case "asin"_fnv1a:
         return MathOperator::MATH_ARCSIN;
     case "arccos"_fnv1a:
+    case "acos"_fnv1a:
         return MathOperator::MATH_ARCCOS;
     case "arctan"_fnv1a:
+    case "atan"_fnv1a:
         return MathOperator::MATH_ARCTAN;
     case "sqrt"_fnv1a:
         return MathOperator::MATH_SQRT;
-- 
2.43.0


From 3dd6b0ea48adc5e6a28dceb8025c9c763dbfb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 06/17] fix: check variable names without std::regex, which
 overflows the stack on long names

---
 single/include/tomsolver/tomsolver.h | 10 +++++++++-
 src/tomsolver/node.cpp               | 12 ++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index d2d27aa..2a50fcf 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1636,7 +1636,15 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    return !varname.empty() && !isDigit(varname[0]) && std::all_of(varname.begin(), varname.end(), [&](char c) {
+        return isDigit(c) || isLetter(c);
+    });
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..0e840e4 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -661,7 +661,15 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    return !varname.empty() && !isDigit(varname[0]) && std::all_of(varname.begin(), varname.end(), [&](char c) {
+        return isDigit(c) || isLetter(c);
+    });
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 289a965844b731fd652aac8e1c5b7016dad86741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 07/17] fix: %, & and | of operands without a defined int
 result give an invalid value instead of undefined behaviour

---
 single/include/tomsolver/tomsolver.h | 22 +++++++++++++++++++---
 src/tomsolver/math_operator.cpp      | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2a50fcf..96888e1 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1919,6 +1919,15 @@ inline bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/* 截断后是否在int的范围内。超出范围的值转换为int是未定义行为 */
+inline bool InIntRange(double v) noexcept {
+    return v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0;
+}
+
+} // namespace
+
 inline double Calc(MathOperator op, double v1, double v2) {
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
@@ -1963,13 +1972,20 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 除数为0时没有定义，ret保持nan。除数为-1时余数总是0，但INT_MIN % -1会溢出
+        if (InIntRange(v1) && InIntRange(v2) && (int)v2 != 0) {
+            ret = (int)v2 == -1 ? 0 : (int)v1 % (int)v2;
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (InIntRange(v1) && InIntRange(v2)) {
+            ret = (int)v1 & (int)v2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (InIntRange(v1) && InIntRange(v2)) {
+            ret = (int)v1 | (int)v2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..357370c 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -270,6 +270,15 @@ bool IsFunction(MathOperator op) noexcept {
     return false;
 }
 
+namespace {
+
+/* 截断后是否在int的范围内。超出范围的值转换为int是未定义行为 */
+bool InIntRange(double v) noexcept {
+    return v > std::numeric_limits<int>::min() - 1.0 && v < std::numeric_limits<int>::max() + 1.0;
+}
+
+} // namespace
+
 double Calc(MathOperator op, double v1, double v2) {
     double ret = std::numeric_limits<double>::quiet_NaN();
     switch (op) {
@@ -314,13 +323,20 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 除数为0时没有定义，ret保持nan。除数为-1时余数总是0，但INT_MIN % -1会溢出
+        if (InIntRange(v1) && InIntRange(v2) && (int)v2 != 0) {
+            ret = (int)v2 == -1 ? 0 : (int)v1 % (int)v2;
+        }
         break;
     case MathOperator::MATH_AND: //&
-        ret = (int)v1 & (int)v2;
+        if (InIntRange(v1) && InIntRange(v2)) {
+            ret = (int)v1 & (int)v2;
+        }
         break;
     case MathOperator::MATH_OR: //|
-        ret = (int)v1 | (int)v2;
+        if (InIntRange(v1) && InIntRange(v2)) {
+            ret = (int)v1 | (int)v2;
+        }
         break;
 
     case MathOperator::MATH_POWER: //^
-- 
2.43.0


From 4a3f6819690b3f8b52c8e0a711a4b06322b1f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 08/17] fix: Simplify keeps constant subexpressions without a
 valid value instead of letting MathError escape from noexcept

---
 single/include/tomsolver/tomsolver.h | 26 +++++++++++++++++---------
 src/tomsolver/simplify.cpp           | 27 ++++++++++++++++++---------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 96888e1..9eef86a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3028,6 +3028,21 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 操作数都是数字的节点，直接计算出来。如果结果是无效值，那么保持原样。
+    static void FoldNumbers(NodeImpl &node, double l, double r) noexcept {
+        double value = 0;
+        try {
+            value = tomsolver::Calc(node.op, l, r);
+        } catch (const MathError &) {
+            return;
+        }
+        node.type = NodeType::NUMBER;
+        node.value = value;
+        node.op = MathOperator::MATH_NULL;
+        node.left = nullptr;
+        node.right = nullptr;
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -3035,10 +3050,7 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                FoldNumbers(*n, n->left->value, 0);
             }
             break;
 
@@ -3046,11 +3058,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                FoldNumbers(*n, n->left->value, n->right->value);
                 return;
             }
 
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..ccd8ffb 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -1,4 +1,5 @@
 #include "simplify.h"
+#include "error_type.h"
 #include "math_operator.h"
 #include "node.h"
 
@@ -20,6 +21,21 @@ public:
         SimplifyNode(NodeImpl &node) : node(node), isLeftChild(!node.parent || node.parent->left.get() == &node) {}
     };
 
+    // 操作数都是数字的节点，直接计算出来。如果结果是无效值，那么保持原样。
+    static void FoldNumbers(NodeImpl &node, double l, double r) noexcept {
+        double value = 0;
+        try {
+            value = tomsolver::Calc(node.op, l, r);
+        } catch (const MathError &) {
+            return;
+        }
+        node.type = NodeType::NUMBER;
+        node.value = value;
+        node.op = MathOperator::MATH_NULL;
+        node.left = nullptr;
+        node.right = nullptr;
+    }
+
     // 对单节点n进行化简。
     static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
         auto parent = n->parent;
@@ -27,10 +43,7 @@ public:
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, 0);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
+                FoldNumbers(*n, n->left->value, 0);
             }
             break;
 
@@ -38,11 +51,7 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
-                n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
-                n->op = MathOperator::MATH_NULL;
-                n->left = nullptr;
-                n->right = nullptr;
+                FoldNumbers(*n, n->left->value, n->right->value);
                 return;
             }
 
-- 
2.43.0


From 89557741d179a6aeee135a0cbe8078b75eceeb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 09/17] fix: Simplify does not turn 0^e into 0, because e may
 be 0

---
 single/include/tomsolver/tomsolver.h | 4 ++--
 src/tomsolver/simplify.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 9eef86a..2ab0f65 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3068,9 +3068,9 @@ public:
             bool lChildIs1 = n->left->type == NodeType::NUMBER && n->left->value == 1.0;
             bool rChildIs1 = n->right->type == NodeType::NUMBER && n->right->value == 1.0;
 
-            // 任何数乘或被乘0、被0除、0的除0外的任何次方，等于0
+            // 任何数乘或被乘0、被0除，等于0（0的任何次方不能化简，因为0的0次方等于1）
             if ((n->op == MathOperator::MATH_MULTIPLY && (lChildIs0 || rChildIs0)) ||
-                (n->op == MathOperator::MATH_DIVIDE && lChildIs0) || (n->op == MathOperator::MATH_POWER && lChildIs0)) {
+                (n->op == MathOperator::MATH_DIVIDE && lChildIs0)) {
                 n = Num(0);
                 n->parent = parent;
                 return;
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index ccd8ffb..54f4f4d 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -61,9 +61,9 @@ public:
             bool lChildIs1 = n->left->type == NodeType::NUMBER && n->left->value == 1.0;
             bool rChildIs1 = n->right->type == NodeType::NUMBER && n->right->value == 1.0;
 
-            // 任何数乘或被乘0、被0除、0的除0外的任何次方，等于0
+            // 任何数乘或被乘0、被0除，等于0（0的任何次方不能化简，因为0的0次方等于1）
             if ((n->op == MathOperator::MATH_MULTIPLY && (lChildIs0 || rChildIs0)) ||
-                (n->op == MathOperator::MATH_DIVIDE && lChildIs0) || (n->op == MathOperator::MATH_POWER && lChildIs0)) {
+                (n->op == MathOperator::MATH_DIVIDE && lChildIs0)) {
                 n = Num(0);
                 n->parent = parent;
                 return;
-- 
2.43.0


From 0494b5072b77bf4a8f08b1b0d7b721b94d80a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 10/17] fix: differentiate exp of a variable other than the
 differentiation variable

---
 single/include/tomsolver/tomsolver.h | 4 ----
 src/tomsolver/diff.cpp               | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2ab0f65..7bf603f 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4307,10 +4307,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
diff --git a/src/tomsolver/diff.cpp b/src/tomsolver/diff.cpp
index a83450e..b3ef1bf 100644
--- a/src/tomsolver/diff.cpp
+++ b/src/tomsolver/diff.cpp
@@ -241,10 +241,6 @@ public:
                 return;
             }
 
-            // e^x=e^x
-            if (node->left->type == NodeType::VARIABLE)
-                return;
-
             // (e^u)' = e^u * u'
             auto u2 = Clone(node->left);
             q.emplace(*u2);
-- 
2.43.0


From daec3da9b8f562b5e5e136523fa4e4111342cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 11/17] fix: SolveByNewtonRaphson starts from the given initial
 values

---
 single/include/tomsolver/tomsolver.h | 3 +--
 src/tomsolver/nonlinear.cpp          | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 7bf603f..6b2c08e 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3884,8 +3884,7 @@ inline void PrintAtIterationStart(int it) noexcept {
 inline VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values(); // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..671e201 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -89,8 +89,7 @@ void PrintAtIterationStart(int it) noexcept {
 VarsTable SolveByNewtonRaphson(const SymVec &equations, const VarsTable &varsTable) {
     int it = 0; // 迭代计数
     VarsTable table = varsTable;
-    int n = table.VarNums(); // 未知量数量
-    Vec q(n);                // x向量
+    Vec q = table.Values();  // x向量
     internal::PrintSolveStartInfo(equations, varsTable);
 
     SymMat JaEqs = Jacobian(equations, table.Vars());
-- 
2.43.0


From e0cdf5f69d84e99b7515fb2f0a58600509ef2229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 12/17] fix: EachDivide divides a by b

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 6b2c08e..38d6df1 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2297,7 +2297,7 @@ inline Mat operator*(double k, const Mat &mat) noexcept {
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 inline bool IsZero(const Mat &mat) noexcept {
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..82532af 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -270,7 +270,7 @@ Mat operator*(double k, const Mat &mat) noexcept {
 Mat EachDivide(const Mat &a, const Mat &b) noexcept {
     assert(a.rows == b.rows);
     assert(a.cols == b.cols);
-    return {a.rows, b.cols, b.data / b.data};
+    return {a.rows, b.cols, a.data / b.data};
 }
 
 bool IsZero(const Mat &mat) noexcept {
-- 
2.43.0


From 83a518d4b74ab1f11fce35bdda761a3f76ddbabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 13/17] fix: Jacobian is not noexcept, because Diff throws for
 %, & and |

---
 single/include/tomsolver/tomsolver.h | 6 +++---
 src/tomsolver/symmat.cpp             | 2 +-
 src/tomsolver/symmat.h               | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 38d6df1..025f604 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2812,7 +2812,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2837,7 +2837,7 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4666,7 +4666,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..ed33e1d 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,7 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From 584f9c4d526042a02d1a1e870a03cb8c2304c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 14/17] fix: SolveLinear detects singular and inconsistent
 systems by the rank of the eliminated matrix

---
 single/include/tomsolver/tomsolver.h | 29 ++++++++++++++--------------
 src/tomsolver/linear.cpp             | 29 ++++++++++++++--------------
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 025f604..a0b5fc9 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2526,7 +2526,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
+    int RankA = 0; // 系数矩阵的秩
 
     assert(rows == b.Rows()); // A行数不等于b行数
 
@@ -2574,20 +2574,9 @@ inline Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下的行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            break;
         }
 
         // 主对角线化为1
@@ -2606,6 +2595,16 @@ inline Vec SolveLinear(Mat A, Vec b) {
                 b[row] -= b[y] * ratioRow;
             }
         }
+
+        RankA = y + 1;
+    }
+
+    // 系数矩阵从RankA行开始全为0
+    for (auto row = RankA; row < rows; row++) {
+        if (std::abs(b[row]) >= Config::Get().epsilon) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
     }
 
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
@@ -2633,7 +2632,7 @@ inline Vec SolveLinear(Mat A, Vec b) {
         ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
     }
 
-    if (RankA < cols && RankA == RankAb) {
+    if (RankA < cols) {
         if (bIndeterminateEquation) {
             if (!Config::Get().allowIndeterminateEquation) {
                 throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
diff --git a/src/tomsolver/linear.cpp b/src/tomsolver/linear.cpp
index 2c680db..92556b2 100644
--- a/src/tomsolver/linear.cpp
+++ b/src/tomsolver/linear.cpp
@@ -25,7 +25,7 @@ Vec SolveLinear(Mat A, Vec b) {
     int rows = A.Rows(); // 行数
     int cols = rows;     // 列数=未知数个数
 
-    int RankA = rows, RankAb = rows; // 初始值
+    int RankA = 0; // 系数矩阵的秩
 
     assert(rows == b.Rows()); // A行数不等于b行数
 
@@ -73,20 +73,9 @@ Vec SolveLinear(Mat A, Vec b) {
             TrueRowNumber[y] = x; // 补齐方程时 当前行应换到x行
         }
 
-        if (x == cols) // 本行全为0
+        if (x == cols) // 本行及以下的行全为0
         {
-            RankA = y;
-            if (std::abs(b[y]) < Config::Get().epsilon) {
-                RankAb = y;
-            }
-
-            if (RankA != RankAb) {
-                // 奇异，且系数矩阵及增广矩阵秩不相等->无解
-                throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
-            } else {
-                // 跳出for，得到特解
-                break;
-            }
+            break;
         }
 
         // 主对角线化为1
@@ -105,6 +94,16 @@ Vec SolveLinear(Mat A, Vec b) {
                 b[row] -= b[y] * ratioRow;
             }
         }
+
+        RankA = y + 1;
+    }
+
+    // 系数矩阵从RankA行开始全为0
+    for (auto row = RankA; row < rows; row++) {
+        if (std::abs(b[row]) >= Config::Get().epsilon) {
+            // 奇异，且系数矩阵及增广矩阵秩不相等->无解
+            throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
+        }
     }
 
     bool bIndeterminateEquation = false; // 设置此变量是因为后面rows将=cols，标记以判断是否为不定方程组
@@ -132,7 +131,7 @@ Vec SolveLinear(Mat A, Vec b) {
         ret[i] = b[i] - (vec.size() ? vec.sum() : 0);
     }
 
-    if (RankA < cols && RankA == RankAb) {
+    if (RankA < cols) {
         if (bIndeterminateEquation) {
             if (!Config::Get().allowIndeterminateEquation) {
                 throw MathError(ErrorType::ERROR_INDETERMINATE_EQUATION,
-- 
2.43.0


From 9c4204f02c7345ab1c7cde669f38da4a9607708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 15/17] fix: ToString prints enough digits of numbers below 1
 to read them back

---
 single/include/tomsolver/tomsolver.h | 11 ++++++++---
 src/tomsolver/config.cpp             | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index a0b5fc9..4ba2559 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -8,6 +8,7 @@
 #include <clocale>
 #include <cmath>
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <forward_list>
 #include <functional>
@@ -481,8 +482,8 @@ namespace tomsolver {
 namespace {
 
 static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    {"%.*e", std::regex{"\\.?0+(?=e)"}},
+    {"%.*f", std::regex{"\\.?0+(?=$)"}},
 };
 
 }
@@ -503,7 +504,11 @@ inline std::string ToString(double value) noexcept {
     auto fmt = std::get<0>(strategy);
     auto &re = std::get<1>(strategy);
 
-    snprintf(buf, sizeof(buf), fmt, value);
+    // 绝对值小于1时，16位小数不一定包含足够的有效数字，增加位数直到能还原出原值
+    int precision = 16;
+    do {
+        snprintf(buf, sizeof(buf), fmt, precision, value);
+    } while (std::strtod(buf, nullptr) != value && ++precision <= 40);
     return std::regex_replace(buf, re, "");
 }
 
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index c642420..a45af40 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -2,6 +2,7 @@
 
 #include <array>
 #include <cstdio>
+#include <cstdlib>
 #include <regex>
 #include <tuple>
 
@@ -10,8 +11,8 @@ namespace tomsolver {
 namespace {
 
 static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
+    {"%.*e", std::regex{"\\.?0+(?=e)"}},
+    {"%.*f", std::regex{"\\.?0+(?=$)"}},
 };
 
 }
@@ -32,7 +33,11 @@ std::string ToString(double value) noexcept {
     auto fmt = std::get<0>(strategy);
     auto &re = std::get<1>(strategy);
 
-    snprintf(buf, sizeof(buf), fmt, value);
+    // 绝对值小于1时，16位小数不一定包含足够的有效数字，增加位数直到能还原出原值
+    int precision = 16;
+    do {
+        snprintf(buf, sizeof(buf), fmt, precision, value);
+    } while (std::strtod(buf, nullptr) != value && ++precision <= 40);
     return std::regex_replace(buf, re, "");
 }
 
-- 
2.43.0


From 0183b98694eeeceb3ea81a264913a7d007b906ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 16/17] fix: GetMaxAbsRowIndex returned a row outside the
 matrix when the column contains NaN

---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 4ba2559..452e946 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2321,7 +2321,7 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 82532af..621dab3 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -289,7 +289,7 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From c42a12a6d1d6d6f64af5ca52830f59c1927703b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:38 +0000
Subject: [PATCH 17/17] fix: a variable name with the hash value of a function
 name is not that function

---
 single/include/tomsolver/tomsolver.h | 8 ++++++++
 src/tomsolver/parse.cpp              | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 452e946..975765d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3430,6 +3430,14 @@ inline bool IsExponentSign(const char *begin, const char *iter, const char *end)
 }
 
 inline MathOperator Str2Function(internal::StringView s) noexcept {
+    // 不同的字符串可能有相同的哈希值，因此还要比较字符串本身
+    static const char *const names[] = {"sin",    "cos",  "tan",  "arcsin", "asin", "arccos", "acos",
+                                        "arctan", "atan", "sqrt", "log",    "log2", "log10",  "exp"};
+    if (std::none_of(std::begin(names), std::end(names), [&s](internal::StringView name) {
+            return std::equal(s.begin(), s.end(), name.begin(), name.end());
+        })) {
+        return MathOperator::MATH_NULL;
+    }
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
         return MathOperator::MATH_SIN;
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 0c3d990..ee520fd 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -99,6 +99,14 @@ bool IsExponentSign(const char *begin, const char *iter, const char *end) noexce
 }
 
 MathOperator Str2Function(internal::StringView s) noexcept {
+    // 不同的字符串可能有相同的哈希值，因此还要比较字符串本身
+    static const char *const names[] = {"sin",    "cos",  "tan",  "arcsin", "asin", "arccos", "acos",
+                                        "arctan", "atan", "sqrt", "log",    "log2", "log10",  "exp"};
+    if (std::none_of(std::begin(names), std::end(names), [&s](internal::StringView name) {
+            return std::equal(s.begin(), s.end(), name.begin(), name.end());
+        })) {
+        return MathOperator::MATH_NULL;
+    }
     switch (fnv1a(s)) {
     case "sin"_fnv1a:
         return MathOperator::MATH_SIN;
-- 
2.43.0

