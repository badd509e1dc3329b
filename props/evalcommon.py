X = 'src/buildtool/build_engine/expression/'
REPO_SRC = [X + f for f in ('evaluator.cpp', 'expression.cpp', 'expression_ptr.cpp', 'target_node.cpp', 'target_result.cpp')] + [
    'src/buildtool/common/artifact_description.cpp', 'src/buildtool/common/artifact_digest_factory.cpp',
    'src/buildtool/crypto/hash_function.cpp', 'src/buildtool/crypto/hash_info.cpp', 'src/buildtool/crypto/hasher.cpp',
    'src/utils/cpp/tmp_dir.cpp', 'src/utils/cpp/incremental_reader.cpp', 'src/utils/cpp/file_locking.cpp']


def harness(group):
    return dict(src='h_eval.cpp', repo=REPO_SRC, flags=['-DGROUP=%d' % group], quick_s=15, thorough_s=180, hunt_s=60)


EV = X + 'evaluator.cpp'
ASSUME = [
    'evaluation of a sub-expression is a deterministic partial function of the sub-expression and the environment (the evaluator callback); its own implementation (dispatch over the built-in table) is exercised by the bounded conformance harness only',
    'machine arithmetic on container sizes is mathematical (a list cannot hold 2^63 entries); doubles are abstract values with uninterpreted +, *, comparison and rounding',
    'all C++ exceptions are one exceptional outcome; message texts are not specified',
    'memory allocation does not fail; stack depth is not modelled',
]


def fn(u, name, contract, **k):
    """a function of evaluator.cpp's unnamed namespace (one AST dump serves all of them)"""
    return u.fn(name, EV, contract=contract, filter='(anonymous', **k)


def inst(n, *vals):
    """selects the overload with n parameters instantiated with the given (bool) template arguments"""
    def f(d):
        ps = [c for c in d.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        ts = [bool(int(c.get('value', 0))) for c in d.get('inner', []) if c.get('kind') == 'TemplateArgument']
        return len(ps) == n and ts == list(vals)
    return f
