"""Which proof tasks decide which property."""
from . import tasks_tree as tt, tasks_num as tn, tasks_diff as td, tasks_single as ts, tasks_depth as tp, tasks_mat as tm, tasks_det as tdet, tasks_sym as tsym, tasks_noexcept as tnx, tasks_vars as tv, tasks_solve as tso, tasks_parse as tpa, tasks_print as tpr, tasks_linear as tl
from .lean import lean

def T(name, fn, funcs=(), budget=60, tu='src'): return dict(name=name, fn=fn, funcs=funcs, budget=budget, tu=tu)

def clone_eq():
    out = [T('Equal', tt.t_equal), T('Clone', tt.t_clone('Clone')), T('CloneRecursively', tt.t_clone('CloneRecursively'))]
    for h in ('copy-ctor', 'move-ctor', 'copy-assign', 'move-assign'): out.append(T('NodeImpl ' + h, tt.t_copy(h)))
    return out
def constructions():
    out = [T('construct:%s:%s' % (k, '/'.join(v)), tt.t_construct(k, v)) for k, v in tt.inst_table().items()]
    for k in ('Num', 'Var', 'Op', 'Operator', 'Move'): out.append(T(k, tt.t_leafctor(k)))
    return out
def subs():
    out = []
    for rv in (0, 1):
        out.append(T('Subs(map)%s' % ('&&' if rv else ''), tt.t_subs_map(bool(rv)))); out.append(T('Subs(one)%s' % ('&&' if rv else ''), tt.t_subs_single(bool(rv))))
    out += [T(k, f) for k, f in tv.subs_tasks().items()]
    out.append(T('lemma subst-wf', tt.t_lemma_subf))
    return out

GRAMMAR = T('lemmas: grammar', lean('Grammar.lean'))
SUMS = T('lemmas: sums (Lean)', lean('Sum.lean'))
DETS = T('lemmas: determinants (Lean)', lean('Det.lean'))
LINEAR = T('lemmas: sums, recursion, induction (Lean)', lean('Linear.lean'))
LINEAR_USES = ('Vec constructors', 'Mat(rows,cols,init), Rows, Cols', 'copy, assignment', 'Mat::Value', 'Mat::Row', 'Mat::Col', 'Vec::operator[]', 'SwapRow', 'Vec SwapRow', 'Mat::Resize', 'Vec::Resize', 'GetMaxAbsRowIndex')
def parser(): return [T(k, f, budget=200 if k == 'InOrderToPostOrder' else 100) for k, f in tpa.PARSE().items()] + [GRAMMAR]

from .tree import Ops
OPNAMES = Ops.UN + Ops.BI
PROPS = {
    'C01': lambda: [T('NodeImpl::Vpa', tt.t_vpa), T('NodeImpl::Calc', tt.t_calcnode), T('GetOperatorNum', tt.t_opnum)],
    'C02': lambda: [T('Calc:' + n, tn.t_calc(n)) for n in OPNAMES] + [T('NodeImpl::Vpa', tt.t_vpa), T('NodeImpl::Calc', tt.t_calcnode), T('GetOperatorNum', tt.t_opnum)],
    'C03': constructions,
    'C04': clone_eq,
    'C05': lambda: [T('NodeImpl::CheckParent', tt.t_checkparent), T('GetOperatorNum', tt.t_opnum)] + clone_eq() + constructions() + subs() + [T('NodeImpl::Calc', tt.t_calcnode), T('Simplify', tt.t_simplify, budget=120), T('Diff(&&)', td.t_diff(True), budget=200), T('Diff(const &)', td.t_diff(False)), T('BuildExpressionTree', tpa.t_build, budget=100)],
    'C06': lambda: subs() + [T('Clone', tt.t_clone('Clone'))],
    'C07': lambda: [T('Diff(&&)', td.t_diff(True), budget=200), T('Diff(const &)', td.t_diff(False)), T('lemma reciprocal', td.t_lemma_quotient), T('Clone', tt.t_clone('Clone')), T('Simplify', tt.t_simplify, budget=120)],
    'C08': lambda: [T('Simplify', tt.t_simplify, budget=120), T('GetOperatorNum', tt.t_opnum)],
    'C19': lambda: [T('call depth', tp.t_depth), T('NodeImpl::~NodeImpl', tt.t_release)],
    'C21': lambda: [T('same code', ts.t_same, tu='both')],
    'C12': lambda: [T('NodeImpl::GetAllVarNames', tt.t_vars), T('SymMat::GetAllVarNames', tsym.t_vars)],
    'C13': lambda: [T(k, f) for k, f in tm.c13().items()] + [T('lemmas: sums and flat indices', tdet.SUMS), SUMS],
    'C17': lambda: [T(k, f, budget=120 if k == 'SymMat*SymMat' else 60) for k, f in tsym.c17().items()] + [T('lemmas: sums and flat indices', tdet.SUMS), SUMS],
    'C20': lambda: [T('exception contracts', tnx.t_noexcept({'_ZNK9tomsolver6SymVecmi': 'executed with its callees (task SymVec-SymVec)'})), T('SymVec-SymVec', tsym.t_vsub),
                    T('NodeImpl::Vpa', tt.t_vpa), T('NodeImpl::Calc', tt.t_calcnode), T('Simplify', tt.t_simplify, budget=120), T('Diff(const &)', td.t_diff(False))] + subs() + clone_eq(),
    'C18': lambda: [T(k, f) for k, f in tv.c18().items()],
    'C16': lambda: [T(k, f, budget=150 if 'LM' in k else 60) for k, f in tso.c16().items()],
    'C14': lambda: [T(k, f) for k, f in tdet.c14().items()] + [DETS],
    'C15': lambda: [T(k, f, budget=200) for k, f in tl.c15().items()] + [T(k, f) for k, f in tm.c13().items() if k in LINEAR_USES] + [LINEAR],
    'C09': parser, 'C10': parser,
    'C11': lambda: [T(k, f) for k, f in tpr.PRINT().items()] + [GRAMMAR],
}

EDITIONS = {'C21': ['src', 'single']}
TLIMIT = {}
TLIMIT_T = {}
for _p in ('C07', 'C09', 'C10', 'C11', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21'): PROPS.setdefault(_p, lambda: [])
# obligations of a shared contract that are not about the property: if one fails, the task is not proved here (the property the
# obligation belongs to reports it), and the bounded run decides
OFF = {
    'C05': r'derivative|value|folds-numbers|defined-where|substitutes|every-listed|order-times|throws|no-new|the-tree-of-the-operand|whole-list|one-operand|only-malformed',
    'C20': r'derivative|value|folds-numbers|defined-where|substitutes|every-listed|order-times|equal|structur|copies-the-subtree|visits-every-node|:order$|parent-link|well-formed$',
    'C07': r'folds-numbers', 'C06': r'rvalue-consumed',
}
def level(prop): return 'proof' if PROPS[prop]() else 'exploration'
BOUNDED = {'C11': ['ToString(double) (decimal conversion by snprintf/regex): generated numbers printed and read back']}
ASSUME_ALL = [
    'std:: containers, smart pointers, functions and numeric classes behave as the C++ standard says (assumed contracts, listed in trusted_base)',
    'memory allocation does not fail',
    'Clang 18 parses and types the code as the compiler of the build does',
]
ASSUME = {}
REAL = 'double is treated as the real numbers; library functions of <cmath> are uninterpreted'
for _p in ('C05', 'C06', 'C08', 'C12', 'C03', 'C04'): ASSUME[_p] = [REAL]
DIMS = 'the product of the dimensions of a matrix, and every index into it, fits in an int'
for _p in ('C13', 'C14', 'C15', 'C16', 'C17', 'C18'): ASSUME[_p] = [REAL, DIMS]
MAPS = 'a std::map is determined by its keys and values: it enumerates the same keys in the same order, and a key compares equal to itself'
UNIQUE = 'the names in a list of variables are distinct (the documented precondition, asserted by the code)'
for _p in ('C05', 'C06', 'C18', 'C20'): ASSUME[_p] = ASSUME.get(_p, []) + [MAPS, UNIQUE]
ASSUME['C02'] = ['double is IEEE-754 binary64; the rounding of + - * / and the functions of <cmath> are uninterpreted in Calc; the contracts of Vpa and of in-place evaluation treat double as the real numbers']
ASSUME['C16'] += ['Config::maxIterations >= 0', 'Levenberg-Marquardt is used with as many equations as unknowns (the code asserts it)',
    'the value of an expression at an assignment is one function of the expression and the assignment: what Subs, Calc and ToMat compute (C17, C06, C01)',
    'SolveLinear is used by its contract (C15) only as far as it returns one entry per unknown or throws', 'termination of the line search (Armijo) is not claimed, only that the number of linear systems is bounded']
ASSUME['C15'] += ['Config::epsilon > 0; the elements of the remaining matrix and of its right-hand side that are compared with it are zero or at least epsilon in absolute value ("pivots distinguishable from zero")',
    'at least one equation and one unknown, and as many right-hand sides as equations (the code asserts the latter)',
    'the product of a row of the given matrix with a vector is the sum over its columns (definition); finite sums, recursion and induction over columns by the lemmas of lean/Linear.lean, whose instances the proof names in order']
TEXT = ['the text is shorter than 2^31 characters', 'char is signed and isspace is the one of the C locale (space, \\t \\n \\v \\f \\r), also for the bytes 128..255',
    'std::stod reads the longest numeric prefix or throws; which words are numbers is what std::stod accepts entirely', 'constructing an error message throws nothing',
    'between two stages of the parser: the list that one contract guarantees is the list that the next one requires (the denotation of a post order list is defined by the same recursion in both)']
ASSUME['C09'] = TEXT; ASSUME['C10'] = TEXT
ASSUME['C11'] = [REAL, 'ToString(double): the text of a number is one number token with that value, after a minus sign if it is negative (snprintf, strtod and std::regex; bounded run only)',
    'the parser reads the printed tokens: Parse by its contract (C09, C10); between two words (numbers, names) the printed form always has an operator or a parenthesis, so the tokens of the text are the tokens printed',
    'variable names are names for the parser (no function names, no numbers)']
NOT_APPLICABLE = {
    'C22': 'printing goes through snprintf and std::regex; no contract within reach decides decimal conversion of doubles, and a contract on snprintf/strtod strong enough would assume the property itself',
    'C23': 'convergence of the iteration is an analytic statement about limits of floating-point iterates; no function contract within reach expresses it (what a returned result satisfies is C16)',
}
def technique(prop):
    return 'contracts on the real code, obligations generated from its Clang AST and discharged by z3; bounded executable-contract run beside it' if PROPS[prop]() else 'executable contracts on the compiled code (bounded stand-in, not proved)'
def note(prop):
    if PROPS[prop](): return 'Every obligation of the contracts of the functions named in the evidence file is discharged for all inputs and iterations on every run. Assumes: ' + '; '.join(ASSUME_ALL + ASSUME.get(prop, [])) + '.'
    return 'Bounded: generated inputs only, checked against an independent specification under ASan/UBSan.'
def trusted(prop, used):
    return ['clang 18 AST of the current sources', 'the VC generator in /verif/vf', 'z3'] + ['assumed contract: ' + u for u in used]
