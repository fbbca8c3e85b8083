"""task -> (float theory, module, function, arguments); property -> tasks"""
TASKS = {
    'ctors_fp': ('FP', 'spec_ctor', 'ctors_fp', ()),
    'ctors_dim': ('RN', 'spec_ctor', 'ctors_dim', ()),
    'defaults': ('FP', 'spec_ctor', 'defaults', ()),
    'iter_scalar': ('FP', 'spec_iter', 'scalars', ()),
    'iter_vec': ('RN', 'spec_iter', 'vectors', ()),
    'norm_fp': ('FP', 'spec_norm', 'scalar_fp', ()),
    'norm_scalar': ('RN', 'spec_norm', 'scalars', ()),
    'norm_vec': ('RN', 'spec_norm', 'vectors', ()),
    'norm_jac': ('RN', 'spec_norm', 'jacobians', ()),
    'formulas': ('RN', 'spec_formula', 'formulas', ()),
    'adapters': ('RN', 'spec_model', 'adapters', ()),
    'fd': ('RN', 'spec_fd', 'fd', ()),
    'xml_fd': ('FP', 'spec_xml', 'xml', (True,)),
    'xml_jac': ('FP', 'spec_xml', 'xml', (False,)),
}
SOLVE = []
for _ci in range(10):
    for _d in (False, True):
        _nm = 'solve_%d%s' % (_ci, 'd' if _d else '')
        SOLVE.append(_nm)
        TASKS[_nm] = ('RN', 'spec_solve', 'solve', (_ci, _d))

DAMPED = [s for s in SOLVE if s.endswith('d')]
UPDATED = [s for s in SOLVE if s[6] not in '01']
COST = {**{s: 40 if s.endswith('d') else 20 for s in SOLVE}, 'norm_scalar': 12, 'ctors_fp': 8, 'fd': 6, 'adapters': 6, 'formulas': 10}

# property -> (tasks that carry its own obligations, (task, property) whose contracts it relies on)
NORMS = [('norm_fp', 'C08'), ('norm_scalar', 'C08'), ('norm_vec', 'C08')]
STEP = [('iter_scalar', 'C05'), ('iter_vec', 'C05')]
JAC = [('fd', 'C06'), ('iter_scalar', 'C15'), ('iter_vec', 'C15'), ('norm_scalar', 'C07'), ('norm_jac', 'C07')]
PROPS = {
    'C01': (SOLVE, NORMS),
    'C02': (SOLVE + ['fd'], []),
    'C03': (SOLVE, []),
    'C04': (SOLVE + ['fd', 'formulas', 'norm_vec', 'norm_jac', 'norm_scalar'], [('iter_scalar', 'C05'), ('iter_vec', 'C05'), ('iter_scalar', 'C15'), ('iter_vec', 'C15')]),
    'C09': (UPDATED + ['formulas'], NORMS),
    'C10': (SOLVE, JAC),
    'C11': (SOLVE, NORMS),
    'C13': (['xml_fd', 'xml_jac'], []),
    'C14': (SOLVE, []),
    'C17': (SOLVE, []),
    'C18': (SOLVE, NORMS + STEP),
    'C05': (['iter_scalar', 'iter_vec'], []),
    'C06': (['fd'], [('iter_scalar', 'C15'), ('iter_vec', 'C15'), ('norm_vec', 'C08')]),
    'C07': (['norm_scalar', 'norm_jac', 'norm_vec'], []),
    'C08': (['norm_fp', 'norm_scalar', 'norm_vec'], []),
    'C12': (['ctors_fp', 'ctors_dim'], []),
    'C15': (['iter_scalar', 'iter_vec'], []),
    'C16': (['adapters'], []),
    'C19': (['defaults'], []),
}

TRUSTED = [
    'the MIR dumped by rustc nightly (after borrow checking, -Zmir-opt-level=0) is the code that runs; rustc and LLVM compile it faithfully',
    'the verifier itself: engine/ (symbolic execution of MIR, loop invariant inference checked by induction, obligations) and z3',
]

ASSUME = {
    'RN': 'vectors, matrices and indices: 64-bit usize arithmetic is overflow-checked as in a debug build; lengths are below 2^56; floating-point arithmetic in vector code is uninterpreted per operation (no rounding laws are used) except where a real-valued identity is stated',
    'FP': 'floating-point values are IEEE-754 binary64 (bit-precise comparisons and special values); rounding of + - * / is an uninterpreted function with the monotonicity and sign facts of IEEE-754 listed in engine/terms.py',
    'nalgebra': 'nalgebra and the standard library satisfy the contracts assumed in engine/builtins_.py (listed with their use counts in trusted_base)',
    'xml': 'a document is the tree minidom builds: reading a file, parsing it, and the attributes, names and children of a node are functions of their arguments; str::parse::<f64>/<usize> is a function of the string (bool: exactly "true"/"false"); elements have fewer than 2^56 children',
    'model': 'the user model is deterministic: an evaluation is an arbitrary function of its iteratives and memory; setters store what they are given',
}


def tasks_of(prop):
    own, dep = PROPS[prop]
    ts = list(own)
    for t, _ in dep:
        if t not in ts:
            ts.append(t)
    return ts


def depends(prop, o):
    return any(o['task'] == t and p in o['props'] for t, p in PROPS[prop][1])


def assumptions(prop):
    th = {TASKS[t][0] for t in tasks_of(prop)}
    out = [ASSUME[t] for t in sorted(th)] + [ASSUME['nalgebra']]
    if prop in ('C01', 'C02', 'C03', 'C04', 'C06', 'C09', 'C10', 'C11', 'C14', 'C17', 'C18'):
        out.append(ASSUME['model'])
    if prop == 'C13':
        out.append(ASSUME['xml'])
    return out


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except ImportError:
        return '(python3-vt)'
