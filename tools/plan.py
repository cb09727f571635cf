"""Which witnesses decide which property."""
import json, os
TIMEOUT = {'quick': 600, 'thorough': 3600}
ASSUMPTIONS = [
    'real arithmetic: floating-point rounding is outside the analysis',
    'the solvers behave as their abstract stand-ins (witness/osqp_stub.h, witness/nlopt_stub.h) describe',
    'quantities are unbounded unknowns; dimensions are the listed configurations',
]
UNITS = {
    # static and run-time sizes; ch<ph, ch==ph, sizes of one, no disturbance
    'LA': ('lmpc.cpp', ['CFG=LW<false,2,2,1,3,4,2>']),
    'LB': ('lmpc.cpp', ['CFG=LW<true,3,1,2,2,3,3>']),
    'LC': ('lmpc.cpp', ['CFG=LW<false,1,2,0,1,1,1>']),
    'LD': ('lmpc.cpp', ['CFG=LW<false,1,1,1,1,3,2>']),
    'LE': ('lmpc.cpp', ['CFG=LW<true,2,2,1,3,4,2>']),
    'LF': ('lmpc.cpp', ['CFG=LW<true,2,3,0,1,5,1>']),
    'LG': ('lmpc.cpp', ['CFG=LW<false,3,1,2,2,3,3>']),
    'NA': ('nlmpc.cpp', ['CFG=NW<false,2,1,2,3,2,2,1>']),
    'NB': ('nlmpc.cpp', ['CFG=NW<true,2,2,1,3,3,1,2>']),
    'NC': ('nlmpc.cpp', ['CFG=NW<true,1,1,1,1,1,0,0>']),
    'ND': ('nlmpc.cpp', ['CFG=NW<true,3,1,2,4,2,2,1>']),
    'NE': ('nlmpc.cpp', ['CFG=NW<false,1,2,1,2,1,3,1>']),
    'AL': ('agree_l.cpp', ['DIMS=2,2,1,3,4,2']),
    'AK': ('agree_l.cpp', ['DIMS=3,1,2,2,3,3']),
    'AN': ('agree_n.cpp', ['DIMS=2,1,2,3,2,2,1']),
    'AM': ('agree_n.cpp', ['DIMS=1,2,1,2,2,1,2']),
    'MI': ('misc.cpp', []),
    'SZ': ('sizes.cpp', []),
    'PY': ('py.cpp', []),
    'LH': ('lmpc.cpp', ['CFG=LW<true,2,1,3,3,12,10>']),
    'NG': ('nlmpc.cpp', ['CFG=NW<true,2,3,1,5,3,6,0>']),
    'NH': ('nlmpc.cpp', ['CFG=NW<true,2,2,1,12,9,1,6>']),
    'NF': ('nlmpc.cpp', ['CFG=NW<true,2,1,2,3,2,0,1>']),
}
NALL = 'e_values e_discrete e_zero e_many e_magnitudes e_caller e_continuous e_again e_bare e_partial e_replace e_tolerances e_setters e_bounds e_extreme e_refusal e_slicing e_results e_feasible e_judged e_fail e_failwarm e_throw e_throwlate e_guess e_scale e_scalelate e_scaleneg e_params e_life e_two e_two_params e_two_sizes e_stats'.split()
LALL = 'e_full e_bare e_slices e_steps e_sparse e_extreme e_order e_isolated e_overwrite e_patchwork e_zero e_many e_magnitudes e_caller e_results e_outcomes e_alloc e_params e_warm e_life e_setters e_two e_two_params e_two_sizes e_stats'.split()
def J(units, entries):
    return [(u, e) for u in units.split() for e in entries.split()]
PROB = 'e_full e_bare e_slices e_steps'
MORE = 'e_order e_overwrite e_sparse e_extreme e_setters e_patchwork e_zero e_magnitudes'
HOWL = ('Abstract interpretation of the LLVM IR of LMPC, ProblemBuilder and LOptimizer, compiled from the current headers in each configuration. '
        'Every real the user can set is an unknown; each cell handed to the solver is compared as a polynomial with the specification. ')
HOWN = ('Abstract interpretation of the LLVM IR of NLMPC, NLOptimizer, Objective, Constraints, Model and Mapping, compiled from the current headers in each configuration '
        'behind the real nlopt.hpp. User functions are unknown functions of their arguments, decision vectors, bounds and scalings unknown reals; every value crossing the '
        'solver boundary is compared with the specification as a value number, derivatives by evaluating both value numbers at sampled arguments. ')
HOWB = HOWL + HOWN
HOWM = 'Abstract interpretation of the LLVM IR of the helper, compiled from the current headers, every duration, matrix, vector field and message an unknown, against the specification. '
def quiet(names, kinds='deep none'):
    return ' '.join('%s_%s' % (n, k) for n in names.split() for k in kinds.split())
QL = 'e_full e_setters e_outcomes e_alloc e_params e_warm e_slicing e_stats'
QN = 'e_values e_continuous e_setters e_fail e_throw e_params e_bounds e_slicing e_scale e_results e_guess'
EVAL = 'e_values e_discrete e_zero e_magnitudes e_continuous e_again e_bare e_partial e_replace e_scale e_scalelate'
N4, N6 = 'NA NB NC ND NE NG NH', 'NF'
def N(entries):
    return dict(quick=J(N4, entries), thorough=J(N6, entries), how=HOWN)
def both(rules, lq, lt, n, **kw):
    d = dict(rules=rules, quick=lq + J(N4, n), thorough=lt + J(N6, n), how=HOWB)
    d.update(kw)
    return d
CT = 'compile-time witnesses: programs that must (not) compile'
MISC = 'e_profiler e_profiler4 e_stats_text e_status_names e_logger e_logger_values e_logger_config e_logger_split e_rk4 e_rk4zero e_discretization'
PROPS = {
    'C01': dict(rules=['C01.'], quick=J('LA LB LC LE LF', PROB) + J('LB LD', MORE) + J('LH', 'e_full e_bare e_steps'), thorough=J('LD LG', PROB) + J('LH', 'e_slices e_extreme e_setters') + J('LA LC LE LF LG', MORE), how=HOWL),
    'C02': dict(rules=['C02.'], quick=J('LA LB LC LE LF', PROB) + J('LB LD', MORE) + J('LH', 'e_full e_bare e_steps'), thorough=J('LD LG', PROB) + J('LH', 'e_slices e_extreme e_setters') + J('LA LC LE LF LG', MORE), how=HOWL),
    'C03': dict(rules=['C03.'], quick=J('LA LB LC LE LF', PROB) + J('LB LD', MORE) + J('LH', 'e_full e_bare e_steps'), thorough=J('LD LG', PROB) + J('LH', 'e_slices e_extreme e_setters') + J('LA LC LE LF LG', MORE), how=HOWL),
    'C04': dict(rules=['C04.'], quick=J('LA LB LC LF', 'e_order e_isolated e_overwrite e_patchwork e_zero e_many'), thorough=J('LD LE LG', 'e_order e_isolated e_overwrite e_patchwork e_zero e_many'), how=HOWL),
    'C05': dict(rules=['C05.'], quick=J('LA LB LC LE', 'e_full e_bare e_sparse') + J('LH', 'e_full e_sparse'), thorough=J('LD LF LG', 'e_full e_bare e_sparse e_order'), how=HOWL),
    'C06': both(['C06.'], J('LA LB', 'e_params'), J('LC LD LE LF LG', 'e_params'), 'e_params'),
    'C07': dict(rules=['C07.'], quick=J('LA LB LC LE LF LH', 'e_results') + J('LB LD', 'e_outcomes e_alloc e_two e_many e_magnitudes'), thorough=J('LD LG', 'e_results e_many e_magnitudes') + J('LA', 'e_outcomes e_alloc'), how=HOWL),
    'C08': dict(rules=['C08.'], quick=J('LB LC LD', 'e_outcomes e_alloc'), thorough=J('LA LE LF LG', 'e_outcomes e_alloc'), how=HOWL),
    'C09': both(['C09.'], J('LB LC LD', 'e_outcomes'), J('LA LE LF LG', 'e_outcomes'), 'e_results e_fail e_failwarm'),
    'C10': both(['C10.'], J('LB LD', 'e_life e_two e_warm e_alloc e_outcomes e_params'), J('LA LC LE', ' '.join(LALL)), ' '.join(NALL)),
    'C11': dict(rules=['C11.'], quick=J('LA LB LC', 'e_warm e_results') + J('LH', 'e_warm') + J('LB LD', 'e_outcomes e_two e_many e_magnitudes'), thorough=J('LD LE LF LG', 'e_warm e_results e_outcomes e_many'), how=HOWL),
    'C12': dict(rules=['C12.'], **N(EVAL)),
    'C13': dict(rules=['C13.'], **N(EVAL)),
    'C14': dict(rules=['C14.'], **N(EVAL)),
    'C15': dict(rules=['C15.'], **N(EVAL)),
    'C16': dict(rules=['C16.'], **N('e_bounds e_extreme e_slicing e_scalelate e_fail e_two e_zero e_many e_magnitudes')),
    'C17': dict(rules=['C17.'], **N('e_results e_tolerances e_feasible e_judged e_throw e_bare e_fail e_scale e_two e_zero e_many e_magnitudes')),
    'C18': dict(rules=['C18.'], **N('e_fail e_failwarm e_throw e_throwlate e_life')),
    'C19': dict(rules=['C19.'], **N('e_guess e_scale e_scalelate e_failwarm e_two e_zero e_many e_magnitudes')),
    'C20': both(['C20.'], J('LA LB LC', 'e_setters') + J('LD', 'e_slicing'), J('LD LE LF LG', 'e_setters'), 'e_replace e_tolerances e_partial e_refusal e_setters e_bounds e_slicing'),
    'C21': dict(rules=['C21.'], **N('e_scale e_scalelate e_scaleneg')),
    'C22': both(['C22.'], J('LD', 'e_slicing'), J('LB', 'e_slicing'), 'e_slicing'),
    'C23': dict(rules=['C23.'], compile=True, lints=['headers', 'interface'], quick=J('AL AN', 'e_agree e_agree_slices'), thorough=J('AK AM', 'e_agree e_agree_slices'),
                technique=CT + '; abstract interpretation of the IR of both instantiations side by side',
                how='Programs that use every public operation with both kinds of sizes, compiled only; and the IR of one program that drives a controller with compile-time sizes and one with run-time sizes the same way, every boundary value compared. '),
    'C24': both(['C24.'], J('LB LC LD', ' '.join(LALL)) + J('LC', quiet(QL)) + J('MI', MISC), J('LA LE LF LG', ' '.join(LALL)) + J('LD', quiet(QL)), ' '.join(NALL),
                how=HOWB + 'Every load, store, copy, release and branch on these paths is checked against the extent, life and initialisation of the object it touches. '),
    'C25': both(['C25.'], J('LA LB LC', 'e_two e_two_params e_two_sizes'), J('LD LE LF LG', 'e_two e_two_params e_two_sizes'), 'e_two e_two_params e_two_sizes', lints=['owners']),
    'C26': both(['C26.'], J('LB LC LD', 'e_stats') + J('MI', 'e_profiler e_profiler4 e_stats_text e_status_names'), J('LA LE LF LG', 'e_stats'), 'e_stats', how=HOWM + HOWB),
    'C27': dict(rules=['C27.'], quick=J('MI', 'e_logger e_logger_values e_logger_config e_logger_split') + J('LC', quiet(QL) + ' e_logger') + J('NC', quiet(QN) + ' e_logger') + J('NA', quiet('e_values e_continuous e_fail e_throw e_setters')),
                thorough=J('LA LB', quiet(QL) + ' e_logger') + J('NA NB', quiet(QN) + ' e_logger'), how=HOWM + 'The whole of both controllers is interpreted at the two extreme levels, every write to an output stream recorded. '),
    'C28': dict(rules=['C28.'], compile=True, lints=['sizes'], quick=J('SZ', 'e_sizes e_unknown'), thorough=[], technique=CT + '; abstract interpretation of the IR for unknown operands', how=HOWM),
    'C29': dict(rules=['C29.'], quick=J('MI', 'e_rk4 e_rk4zero e_discretization'), thorough=[], how=HOWM),
    'C31': dict(rules=['C31.'], compile=True, quick=J('PY', 'e_module'), thorough=[], technique=CT + '; abstract interpretation of the IR of the module initialiser',
                how='The module definition is compiled against the current headers behind stand-ins of pybind11 that check each exported signature, and its IR is interpreted: every exported callable is called with unknown arguments and its effect on the controller compared with the operation it is named after. '),
    'C32': both(['C32.'], J('LA LB LC', 'e_caller'), J('LD LE LF LG', 'e_caller'), 'e_caller'),
    'C30': dict(rules=['C30.'], **N('e_bare e_partial e_replace e_values e_continuous e_zero')),
}
FLOORS = {}
_f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'floors.json')
if os.path.exists(_f):
    FLOORS = json.load(open(_f))


def floors(unit, entry):
    return FLOORS.get(unit + ':' + entry, [])


def jobs(prop, tier):
    p = PROPS[prop]
    return p['quick'] + (p['thorough'] if tier == 'thorough' else [])
