#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/tomsolver/"+f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("C01","An expression evaluates to the composition of its operators",
  "Evaluating a variable-free expression gives exactly the value obtained by applying every operator and function to the values of its operands, bottom-up and with the operands in their written order, in IEEE double arithmetic (%, & and | on operands truncated to int). If a variable occurs anywhere, evaluation throws instead of returning a number. Evaluation leaves the expression unchanged, and the in-place form replaces it by exactly that number.",
  ["inputs"],"every expression tree (any size and shape, every operator), every operand value",
  "The tests evaluate a few dozen fixed expressions and random +-*/ trees; no finite set covers all shapes, operators, operand orders and values.",
  ["node.cpp","math_operator.cpp","node.h","config.h"],
  [("post-order flattening and value stack","node.cpp NodeImpl::VpaNonRecursively"),("one operator application","math_operator.cpp Calc"),("operator arity table","math_operator.cpp GetOperatorNum"),("in-place evaluation","node.cpp NodeImpl::Calc")],
  [("value stack","the values of the already evaluated operands","node.cpp VpaNonRecursively calcStk")],["Node::Vpa","Node::Calc"])
p("C02","Invalid results are reported, never returned, and never trap",
  "With the default configuration no operator application returns inf, -inf or NaN: it throws a math error instead, and with the throwing disabled it returns the invalid number. No operand value, including 0 divisors, huge values and NaN, makes an operator application trap or execute undefined behaviour. A valid result is never reported as an error.",
  ["inputs","configurations"],"every operator, every pair of double operands, both settings of throw-on-invalid-value",
  "The tests check a handful of out-of-domain operands for some functions; the operand space is 2^128 pairs per operator.",
  ["math_operator.cpp","math_operator.h","error_type.cpp","config.h"],
  [("invalid-value check after the operator switch","math_operator.cpp Calc"),("guarded int conversions","math_operator.cpp Calc (%, &, |)")],[],["tomsolver::Calc","Node::Vpa"])
p("C03","Building expressions copies lvalues, consumes rvalues, keeps order",
  "Combining expressions with an operator or a function gives a new expression with that operator and the operands in order; an lvalue operand is deep-copied and stays as it was, an rvalue operand is moved into the result and left empty. This also holds when both operands are the same object, as in n += n or n = n * n. Every named function and operator builds the node of the same name.",
  ["inputs","programs"],"every operator and function, every value category of the operands, every operand tree, and operands that alias each other",
  "The tests build some expressions; they do not cover all value-category and aliasing combinations, nor that the copies share nothing with the originals.",
  ["node.h","node.cpp","functions.h"],
  [("copy or move of one operand","node.cpp CopyOrMoveTo"),("operator templates","node.h UnaryOperator, BinaryOperator, operator+ ... operator^="),("named functions","functions.h")],[],["operator+ - * / ^ += -= *= /= ^=","sin cos ... exp"])
p("C04","Copies are deep and equality is structural",
  "A clone or a copy of an expression is structurally equal to the original and shares no node with it, and the original is unchanged. Equality of expressions holds exactly when both trees have the same shape and the same node kind, operator, value and name at every position. Moving an expression transfers its operands and leaves the source without any.",
  ["inputs"],"every expression tree and every pair of expression trees",
  "Tests compare a few small trees; a difference at one position of a large tree, or sharing that shows only after a later mutation, is not sampled.",
  ["node.cpp","node.h"],
  [("iterative copy with an explicit stack","node.cpp CloneNonRecursively"),("pairwise traversal","node.cpp NodeImpl::Equal"),("copy and move assignment","node.cpp NodeImpl::operator=")],
  [("copy worklist","pairs of source node and destination slot","node.cpp CloneNonRecursively stk")],["Clone","Node::Equal"])
p("C05","Expression trees stay well-formed under every operation",
  "After every public operation that builds or transforms an expression, each operator node has exactly the operands its arity demands, leaves have none, each child's parent link points to the node that owns it, and the root's parent link is empty. Nodes that became numbers or variables keep no operator, name or value of what they were before.",
  ["inputs","histories"],"every input tree of every transforming operation, hence every history of operations",
  "The debug-build parent check runs only on the inputs the tests use and does not check the root or leftover fields.",
  ["node.cpp","node.h","subs.cpp","diff.cpp","simplify.cpp","parse.cpp","symmat.cpp"],
  [("parent links set where a child is attached","node.cpp CopyOrMoveTo, Operator, CloneNonRecursively"),("parent restored after in-place replacement","subs.cpp, diff.cpp, simplify.cpp"),("parent links set while building","parse.cpp BuildExpressionTree")],
  [("parent","raw back pointer to the owning node","node.h NodeImpl::parent")],["all functions returning or modifying Node"])
p("C06","Substitution is simultaneous, complete and leaves the rest alone",
  "Substitution replaces every occurrence of each listed variable, and nothing else, by a fresh copy of its replacement; inserted replacements are not substituted again. All overloads (single variable, lists, maps of expressions or numbers, variable tables) agree, and an lvalue expression argument and the replacements are left unchanged. Hence evaluating the result equals evaluating the original with the replacements' values for the variables.",
  ["inputs"],"every expression tree, every substitution map",
  "Tests substitute into a few fixed expressions; replacements that mention the substituted variables and occurrences at every position are not covered.",
  ["subs.cpp","subs.h"],
  [("replacement of one node","subs.cpp SubsInner Replace"),("worklist traversal that does not enter replacements","subs.cpp SubsInner"),("overloads building the dictionary","subs.cpp Subs")],[],["Subs","SymMat::Subs"])
p("C07","Diff returns the derivative",
  "At every point where an expression is differentiable by the calculus rules, the expression returned by differentiating with respect to a variable evaluates to the true derivative of the original there, for the requested order. Other variables are constants; an lvalue argument is unchanged; expressions containing %, & or | applied to a non-constant operand make it throw.",
  ["inputs"],"every expression tree over the differentiable operators, every variable name, every order >= 1, every evaluation point in the domain",
  "Tests compare the printed derivative of some 50 expressions; the interplay of operators, constants, foreign variables and nesting is unbounded.",
  ["diff.cpp","diff.h"],
  [("one differentiation rule per operator","diff.cpp DiffOnceOperator"),("queue of subtrees still to differentiate, addressed by parent and side","diff.cpp DiffOnce"),("higher order and final simplification","diff.cpp Diff")],
  [("pending queue","subtrees that stand for their derivative","diff.cpp DiffOnce q")],["Diff","Jacobian"])
p("C08","Simplify preserves values",
  "Wherever the original expression has a valid value, the simplified expression has the same value, for every assignment of the variables. Simplification never invents variables, never fails, and folds every operator whose operands are all numbers with a valid result.",
  ["inputs"],"every expression tree and every variable assignment",
  "Tests check the printed result for some 20 expressions; a wrong identity shows only for particular operand values or nestings.",
  ["simplify.cpp"],
  [("rules for one node","simplify.cpp SimplifySingleNode"),("bottom-up traversal addressing slots by parent and side","simplify.cpp SimplifyWholeNode")],[],["Simplify","Diff"])
p("C09","Parse is total: an expression or a parse error",
  "For every input string, parsing either returns a complete expression in which every operator has its operands, or throws a parse error; it never crashes, reads outside the input or throws anything else. Malformed input (unbalanced parentheses, missing operands or operators, bad names, empty input) is always rejected.",
  ["inputs"],"every byte string",
  "Tests reject seven malformed inputs; the space of malformed strings is unbounded.",
  ["parse.cpp","parse.h","node.cpp"],
  [("tokenizer","parse.cpp ParseToTokens"),("operator stack, parenthesis balance and operand expectation","parse.cpp InOrderToPostOrder"),("operand stack","parse.cpp BuildExpressionTree")],
  [("tokenStack","operators waiting for their right operand","parse.cpp InOrderToPostOrder"),("tokenStack","finished operands","parse.cpp BuildExpressionTree")],["Parse","operator\"\"_f"])
p("C10","Parse respects precedence, associativity and parentheses",
  "A parsed expression groups operators by the documented precedence (functions and unary signs tightest, then %, & and |, ^, * and /, + and -), groups equal precedence to the left except ^ to the right, and honours parentheses. Numbers, names and operators appear in the tree in their written order with their written values.",
  ["inputs"],"every well-formed input, any length and nesting",
  "Tests compare a few dozen parses; interactions between arbitrarily long operator sequences are not enumerated.",
  ["parse.cpp","math_operator.cpp"],
  [("precedence table","math_operator.cpp Rank"),("associativity table","math_operator.cpp IsLeft2Right"),("shunting-yard conversion","parse.cpp InOrderToPostOrder"),("tree construction","parse.cpp BuildExpressionTree")],[],["Parse"])
p("C11","Printing and parsing an expression preserves its value",
  "Parsing the printed form of an expression succeeds and gives an expression with the same value for every assignment of the variables. Parentheses are printed wherever leaving them out would change the meaning.",
  ["inputs"],"every expression tree with finite, normal numbers and with variable names that are no function names or numbers",
  "Tests print some 30 expressions; which parentheses are needed depends on every parent/child operator pair, side and sign.",
  ["node.cpp","parse.cpp","math_operator.cpp","config.cpp"],
  [("printing with an explicit stack","node.cpp ToStringNonRecursively"),("operator names","math_operator.cpp MathOperatorToStr"),("numbers","config.cpp ToString")],[],["Node::ToString","Parse"])
p("C12","The reported variables are exactly those that occur",
  "The set of variable names reported for an expression, or for a matrix of expressions, contains exactly the names that occur in it.",
  ["inputs"],"every expression tree, every matrix of expressions",
  "Tests check three expressions.",
  ["node.cpp","symmat.cpp"],
  [("worklist traversal","node.cpp NodeImpl::GetAllVarNames"),("union over elements","symmat.cpp SymMat::GetAllVarNames")],[],["GetAllVarNames","Solve(equations)"])
p("C13","Matrix and vector operations compute their definitions",
  "Sum, difference, negation, scaling, product, transpose, dot product, element-wise quotient, norms (Norm2 is the sum of squares), row and column exchange, resizing, identity and comparison of matrices and vectors of any dimensions give, element by element, what their mathematical definitions say. Operands other than the target are unchanged and no operation reads or writes outside a matrix.",
  ["inputs"],"all dimensions >= 1 and all real entries",
  "Tests use matrices up to 4x4 with fixed numbers, mostly square.",
  ["mat.cpp","mat.h"],
  [("row-major storage with slices","mat.cpp Mat::Row, Mat::Col, Mat::Value"),("per-operation loops and valarray expressions","mat.cpp")],
  [("rows, cols, data","data.size() == rows*cols, element (i,j) at i*cols+j","mat.h Mat")],["Mat","Vec"])
p("C14","Determinant and inverse are exact in real arithmetic",
  "The determinant of a square matrix of any size, or of a leading square part of it, equals the mathematical determinant (over the reals). Inverting a matrix whose determinant is larger than the tolerance gives a matrix whose product with the original is the identity, and otherwise throws the singular-matrix error.",
  ["inputs"],"all square matrices of size >= 1 and real entries",
  "Tests check a 3x3 and a 4x4 matrix.",
  ["mat.cpp"],
  [("Laplace expansion","mat.cpp Det"),("minor extraction by strided blocks","mat.cpp GetCofactor"),("adjugate","mat.cpp Adjoint"),("scaling by the determinant","mat.cpp Mat::Inverse")],[],["Det","Mat::Inverse","Adjoint"])
p("C15","Linear solving returns solutions or the right error",
  "Over the reals, a vector returned by the linear solver satisfies Ax=b; for a square system it is the only solution. Inconsistent systems, systems with infinitely many solutions (unless an under-determined system is allowed by the configuration) and over-determined shapes are reported by the corresponding math error instead of a result.",
  ["inputs","configurations"],"all matrices of any shape and rank (pivots distinguishable from zero at the configured tolerance), all right-hand sides",
  "Tests solve four systems; rank deficiency at every position, row exchanges and rectangular shapes are not covered.",
  ["linear.cpp","mat.cpp"],
  [("elimination with partial pivoting","linear.cpp SolveLinear"),("rank bookkeeping","linear.cpp SolveLinear RankA"),("back substitution","linear.cpp SolveLinear")],[],["SolveLinear"])
p("C16","Solve returns roots for exactly the unknowns asked for",
  "A result returned by the nonlinear solver, with either method, satisfies every equation within the configured tolerance, and it has exactly the unknowns of the given table (or all variables of the equations if none is given). The iteration starts from the given initial values, the arguments are not modified, and the number of iterations is bounded by the configured limit, beyond which it throws.",
  ["inputs","configurations"],"every equation system and initial table for which it returns, both methods, every configuration",
  "Tests solve about ten systems; whether an unconverged value can be returned depends on every path through the iteration.",
  ["nonlinear.cpp","nonlinear.h"],
  [("exit only when the residual compares equal to zero","nonlinear.cpp SolveByNewtonRaphson, SolveByLM"),("iteration counter","nonlinear.cpp"),("method dispatch and default table","nonlinear.cpp Solve")],[],["Solve"])
p("C17","Matrices of expressions act element-wise and the Jacobian is right",
  "Copying, substituting, evaluating, subtracting, multiplying, comparing and converting matrices of expressions act on each element, or by the matrix-product definition, for every shape, and non-target operands are unchanged. Element (i,j) of the Jacobian is the derivative of equation i with respect to variable j.",
  ["inputs"],"all dimensions, all element expressions, all variable lists",
  "Tests use 2x2 and 3x3 examples.",
  ["symmat.cpp","symmat.h"],
  [("element-wise generation","symmat.cpp std::generate over the elements"),("product loops","symmat.cpp SymMat::operator*"),("row-major walk over equations and variables","symmat.cpp Jacobian")],[],["SymMat","SymVec","Jacobian"])
p("C18","A table of variables keeps names and values consistent",
  "After construction and after every value update, the lookup by name, the ordered iteration and the value vector of a variable table agree: the k-th name has the k-th value. Looking up a name that is not in the table throws, equality compares names exactly and values within the tolerance, and updating values never changes the set of names or their order.",
  ["inputs","histories"],"every list of distinct names, every sequence of updates",
  "Tests check tables of up to three variables.",
  ["vars_table.cpp","vars_table.h"],
  [("values written to both representations","vars_table.cpp VarsTable::SetValues and constructors")],
  [("vars, values, table","three views of one mapping","vars_table.h VarsTable")],["VarsTable"])
p("C19","Stack use does not depend on the depth of an expression",
  "Evaluating, copying, comparing, printing, substituting, simplifying, differentiating, listing variables of and destroying an expression use a call depth bounded by a constant, however deep the expression is. So no expression that fits in memory overflows the stack.",
  ["inputs"],"every expression depth",
  "Tests run a few operations on one deep chain; other operations, shapes and paths (e.g. destruction after an error) can recurse unnoticed.",
  ["node.cpp","simplify.cpp","subs.cpp","diff.cpp","parse.cpp"],
  [("explicit work stacks instead of recursion","node.cpp, subs.cpp, simplify.cpp, diff.cpp"),("iterative destruction","node.cpp NodeImpl::Release")],[],["all Node operations","~NodeImpl"])
p("C20","Operations that promise not to throw never throw",
  "No input makes an exception escape from an operation declared non-throwing (which would terminate the program), apart from exhaustion of memory. An operation that throws leaves its const and lvalue arguments as they were; evaluating an expression in place that throws leaves it unchanged.",
  ["inputs","fault_sequences"],"every input of every operation declared noexcept",
  "Tests terminate only if one of their inputs happens to trigger it.",
  ["node.h","simplify.h","subs.h","symmat.h","mat.h","vars_table.h"],
  [("noexcept declarations","headers"),("MathError contained when folding","simplify.cpp FoldNumbers")],[],["all noexcept functions"])
p("C21","The single-header edition behaves like the library",
  "For every call, the single-header edition of the library gives the same result, exception or side effect as the multi-file library.",
  ["inputs","programs"],"every function and input",
  "The single-header tests are a copy of the same finite tests; a divergence outside them is invisible.",
  [ "../../single/include/tomsolver/tomsolver.h","../../scripts/combine_src_to_header_only.py"],
  [("generated merge of the sources","scripts/combine_src_to_header_only.py")],[],["single/include/tomsolver/tomsolver.h"])
p("C22","Printed numbers read back as the same number",
  "The decimal form printed for every finite number reads back as exactly that number.",
  ["inputs"],"all 2^64 doubles",
  "Tests print about 20 numbers and some random ones in [0,1).",
  ["config.cpp"],[("format choice and digit count","config.cpp ToString")],[],["ToString(double)"])
p("C23","The nonlinear iteration converges when started close to a simple root",
  "Started close enough to a root with an invertible Jacobian, the nonlinear solver returns that root.",
  ["inputs"],"every system, every simple root",
  "Tests try ten systems.",
  ["nonlinear.cpp"],[("Newton step","nonlinear.cpp SolveByNewtonRaphson"),("damped step with line search","nonlinear.cpp SolveByLM, Armijo")],[],["Solve"])
for x in P:
    for i,f in enumerate(x['anchors']['files']): x['anchors']['files'][i]=os.path.normpath(f)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
