# What each check builds and runs.
import os
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
CFGS = {
    'fast': {'cxx': 'clang++', 'flags': ['-O0', '-g1'] + SAN},
    'deep': {'cxx': 'g++', 'flags': ['-O1', '-g1'] + SAN},
    'tsan': {'cxx': 'clang++', 'flags': ['-O1', '-g1', '-fsanitize=thread', '-D_GLIBCXX_ASSERTIONS']},
    'vg': {'cxx': 'g++', 'flags': ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS'],
           'wrap': ['valgrind', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '-q']},
    'plain': {'cxx': 'g++', 'flags': ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS']},
}
T = {
    'double_any': ('double', 'std::any'), 'double_obj': ('double', 'Obj'), 'double_u64': ('double', 'u64'), 'float_u64': ('float', 'u64'),
    'ld_u64': ('long double', 'u64'), 'int_u64': ('int', 'u64'), 'long_u64': ('long', 'u64'), 'fcmp_u64': ('adevs::double_fcmp', 'u64'),
    'sdd_u64': ('adevs::sd_time<double>', 'u64'), 'sdl_u64': ('adevs::sd_time<long>', 'u64'), 'sdi_u64': ('adevs::sd_time<int>', 'u64'),
}
def eng(types, main='eng_main.cpp'):
    return {'units': [(main, [])] + [('world_t.cpp', ['-DTIME=' + T[t][0], '-DVAL=' + T[t][1], '-DMAKE=make_' + t]) for t in types] + [('@src/adevs.cpp', [])]}
SUN = ['-lsundials_kinsol', '-lsundials_cvode', '-lsundials_nvecserial', '-lsundials_sunmatrixdense', '-lsundials_sunlinsoldense']
PROGS = {
    'eng': eng(['double_any', 'double_u64', 'double_obj', 'long_u64', 'fcmp_u64', 'sdd_u64', 'int_u64']),
    'engall': eng(list(T)),
    'engfcmp': eng(['fcmp_u64']),
    'q1': {'units': [('q1.cpp', []), ('@src/adevs.cpp', [])]},
    'times': {'units': [('times.cpp', []), ('@src/adevs.cpp', [])]},
    'ode': {'units': [('ode.cpp', []), ('@src/adevs.cpp', [])], 'libs': SUN},
    'loc': {'units': [('loc.cpp', []), ('@src/adevs.cpp', [])], 'libs': SUN},
    'hyb': {'units': [('hyb.cpp', []), ('@src/adevs.cpp', [])], 'libs': SUN},
    'life': {'units': [('life.cpp', []), ('@src/adevs.cpp', [])]},
    'lifeode': {'units': [('lifeode.cpp', []), ('@src/adevs.cpp', [])], 'libs': SUN},
    'conc': {'units': [('conc.cpp', []), ('@src/adevs.cpp', [])], 'flags': ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/src/stubfmi'], 'libs': SUN + ['-pthread']},
    'cv': {'units': [('cv.cpp', []), ('@src/adevs.cpp', [])], 'libs': SUN},
    'fmu': {'units': [('fmu.cpp', []), ('@src/adevs.cpp', [])], 'flags': ['-I' + os.path.dirname(os.path.abspath(__file__)) + '/src/fakefmi'], 'libs': SUN},
    'graph': {'units': [('graph.cpp', []), ('@src/adevs.cpp', [])]},
    'q2': {'units': [('q2.cpp', []), ('@src/adevs.cpp', [])]},
}
ENG_RULE = ('random model specifications (Moore and Mealy, random pin graphs, ties, zero and infinite delays) simulated by the real engine, every callback '
            'logged and compared with an independent reference executor after every cycle; distinct = different specification or different event history, '
            'non-trivial = at least 3 executed cycles')
ENG_ASSUME = ['time advances are multiples of a tick so that every time is exactly representable', 'user models are deterministic functions of state and input bag']
TECH = {
    'C01': 'online monitor: every callback, bag and state compared with a reference executor after each cycle; ASan+UBSan build',
    'C02': 'online monitor: clock, next event time and every elapsed time compared with a reference executor; ASan+UBSan build',
    'C03': 'online monitor: every delivery compared with the paths counted in a reference graph; ASan+UBSan build',
    'C04': 'online monitor: outputs settled by the engine compared with the fixed point of a reference executor; ASan+UBSan build',
    'C05': 'fault injection (negative advances, output loops, illegal initial states) with an oracle for what must and must not be reported; ASan+UBSan build',
    'C06': 'online monitor: structure, callbacks and destruction compared with a reference executor over structure-changing histories; ASan+UBSan build',
    'C07': 'metamorphic monitor: hierarchical model and its flattened graph driven side by side and against a reference executor; ASan+UBSan build',
    'C08': 'online monitor: random interleavings of the stepping interface compared with a reference executor; ASan+UBSan build',
    'C09': 'online monitor: listener event log compared with the reference trace, event for event; ASan+UBSan build',
    'C10': 'metamorphic monitor: the same specification built in different orders and memory layouts, logs compared offline; ASan+UBSan build',
    'C11': 'online monitor: whole observable queue state compared with a reference container after every operation; ASan+UBSan build',
    'C12': 'online monitor: whole observable queue state compared with a reference container after every operation; ASan+UBSan build',
    'C13': 'online monitor: every operator result compared with exact integer arithmetic, algebraic laws checked on triples; ASan+UBSan build',
    'C14': 'online monitor: operator results compared with 128-bit arithmetic, perturbed simulations compared with the unperturbed reference; ASan+UBSan build',
    'C15': 'metamorphic monitor: the same specification run under eleven time types, logs compared offline; ASan+UBSan build',
    'C16': 'AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck, per-case allocation balance and object counts, exceptions injected into callbacks',
    'C18': 'online monitor: every integration step compared with closed-form solutions (end time, error, order, limits); ASan+UBSan build',
    'C19': 'online monitor: every search compared with known crossing times and closed-form states; ASan+UBSan build',
    'C20': 'online monitor: every callback, flag, state and output compared with closed-form solutions and event times; ASan+UBSan build',
    'C21': 'online monitor: every callback compared with the timeline of a closed-form solution, SUNDIALS calls observed through a stand-in; ASan+UBSan build',
}
def E(q, t, prog='eng', **k):
    return dict(prog=prog, quick=q, thorough=t, **k)
PLAN = {
    'C01': {'runs': [E(6000, 300000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'internal': 20000, 'external': 10000, 'confluent': 5000, 'cycles': 20000}},
    'C02': {'runs': [E(5000, 200000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'cycles': 20000, 'external': 10000, 'forced_or_injected_steps': 2000}},
    'C03': {'runs': [E(3500, 300000), E(16000, 1000000, 'graph', tag='graph')], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'deliveries': 50000, 'structure_ops': 5000, 'graph_routes_to_several': 500000, 'graph_queued_applied': 20000}},
    'C04': {'runs': [E(8000, 300000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'mealy_activations': 50000}},
    'C05': {'runs': [E(8000, 300000), E(9000, 500000, 'life', tag='revised')], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'illegal_advance_detected': 300, 'illegal_initial_detected': 100, 'mealy_loops_detected': 300, 'revised_output_loops_detected': 1500, 'networks_without_cycles': 1500, 'tiny_negative_advances': 200}},
    'C06': {'runs': [E(6000, 300000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'op_add': 3000, 'op_rem': 3000, 'op_pp': 500, 'op_pa': 500}},
    'C07': {'runs': [E(6000, 300000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'op_c.add': 1000, 'op_c.rem': 1000, 'op_c.addc': 500, 'op_c.remc': 500, 'op_c.move': 300}},
    'C08': {'runs': [E(6000, 300000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'api_inject': 5000, 'api_set_next_time': 3000, 'api_compute_output': 5000}},
    'C09': {'runs': [E(5000, 300000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'output_notifications': 20000, 'input_notifications': 20000, 'state_notifications': 20000}},
    'C10': {'runs': [E(2000, 100000)], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'cycles': 10000, 'distinct_address_orders': 2000}},
    'C15': {'runs': [E(450, 15000, 'engall')], 'rule': ENG_RULE, 'assume': ENG_ASSUME, 'need': {'type_comparisons': 2000, 'superdense_comparisons': 500, 'cycles_beyond_32_bits': 500}},
    'C11': {'runs': [E(2600, 400000, 'q1')],
            'rule': 'random histories of schedule (finite, infinite, unchanged), removeMinimum and simulator-like cycles on the real queue, compared with a reference after every operation; distinct = different operation and size history',
            'need': {'queue_states_compared': 200000, 'imminent_sets_with_ties': 20000, 'drained': 10000}},
    'C12': {'runs': [E(6000, 400000, 'q2')],
            'rule': 'random histories of add, remove, update, update_all, remove_next and clear on the real queue, compared with a reference after every operation; distinct = different operation and size history',
            'assume': ['update_all is only called while every entry is up to date (its documentation leaves open whether it consults the time advances again)'],
            'need': {'queue_states_compared': 200000, 'refused': 20000, 'op_remove': 20000, 'op_update_all': 2000}},
    'C13': {'runs': [E(6000, 60000, 'times')],
            'rule': 'random pairs and triples of super-dense times over double, long and int (equal reals, equal integers, zero intervals, extremes), every operator compared with exact integer/dyadic arithmetic; distinct = different operands',
            'assume': ['real parts are exactly representable sums', 'integer parts stay within the range of int'],
            'need': {'sums_checked': 100000, 'round_trips': 100000, 'intervals_lost_in_rounding': 20000, 'reals_beyond_53_bits': 4000}},
    'C14': {'runs': [E(6000, 60000, 'times', tag='operators'), E(1500, 60000, 'engfcmp', tag='engine')],
            'rule': 'random pairs (equal, at the tolerance edge, near it, extremes, subnormals) under eleven tolerances, every operator compared with 128-bit arithmetic; and random models whose event times are perturbed within the tolerance, simulated under double_fcmp and compared with the unperturbed reference cycle by cycle; distinct = different operands or different event history',
            'assume': ['equality oracle skips differences within one rounding error of the tolerance unless the subtraction is exact'],
            'need': {'pairs': 200000, 'equal_but_different_numbers': 5000, 'unequal_near_tolerance': 5000, 'cycles': 10000}},
    'C16': {'runs': [E(6000, 600000, 'life', tag='models'), E(6000, 600000, 'lifeode', tag='hybrid'),
                     E(160, 6000, 'life', tag='models', cfg='vg', cfg_quick='vg', cfg_thorough='vg', cpu=300),
                     E(400, 20000, 'lifeode', tag='hybrid', cfg='vg', cfg_quick='vg', cfg_thorough='vg', cpu=300),
                     E(300, 50000, tag='dynamic', **{'as': 'C06'}), E(300, 50000, tag='coupled', **{'as': 'C07'}), E(300, 50000, tag='inject', **{'as': 'C08'}),
                     E(300, 50000, 'q1', tag='queue', **{'as': 'C11'}), E(800, 50000, 'q2', tag='queue2', **{'as': 'C12'}), E(500, 30000, 'ode', tag='solvers', **{'as': 'C18'}),
                     E(2000, 100000, 'loc', tag='locators', **{'as': 'C19'}), E(500, 30000, 'hyb', tag='hybrid traces', **{'as': 'C20'}),
                     E(400, 20000, 'fmu', tag='fmi', **{'as': 'C22'}), E(1000, 50000, 'cv', tag='cvode', **{'as': 'C21'}), E(1000, 50000, 'graph', tag='graph', **{'as': 'C03'}),
                     E(200, 10000, 'times', tag='times', **{'as': 'C13'}), E(200, 10000, 'times', tag='tolerance', **{'as': 'C14'}),
                     E(24, 800, 'fmu', tag='fmi', cfg='vg', cfg_quick='vg', cfg_thorough='vg', cpu=300, **{'as': 'C22'}),
                     E(60, 3000, 'cv', tag='cvode', cfg='vg', cfg_quick='vg', cfg_thorough='vg', cpu=300, **{'as': 'C21'}),
                     E(40, 1500, 'hyb', tag='hybrid traces', cfg='vg', cfg_quick='vg', cfg_thorough='vg', cpu=300, **{'as': 'C20'})],
            'rule': 'random worlds of Moore, Mealy, hybrid and CVODE models with counted models, values, listeners and solvers; exceptions out of every kind of callback, value copies and '
                    'constructors; destroyed in random orders and simulated again; allocations balanced to the byte after every case under ASan, LSan and UBSan, and uninitialised reads watched by memcheck; '
                    'distinct = different specification and trace',
            'assume': ['exceptions are not thrown through the C frames of SUNDIALS', 'allocation itself does not fail'],
            'need': {'balances_checked': 8000, 'ended_by_exception': 1500, 'simulated_again_after_exception': 500, 'simulated_again_equal': 1000, 'removed_models_destroyed': 3000, 'hybrid_models': 2500}},
    'C17': {'runs': [E(2000, 60000, 'conc', tag='simulations', cfg='tsan', cfg_quick='tsan', cfg_thorough='tsan', shards=4, cpu=300),
                     E(2000, 40000, 'conc', tag='simulations', cfg='plain', cfg_quick='plain', cfg_thorough='plain', shards=4, cpu=300),
                     E(800, 20000, 'conc', tag='pins', cfg='plain', cfg_quick='plain', cfg_thorough='plain', shards=2, cpu=300, env={'PINS_ONLY': '1'})],
            'rule': '2 to 6 threads that start together each create pins and build, change, simulate and destroy simulations of their own (any, long, tolerance and super-dense time, Mealy, coupled, dynamic, hybrid '
                    'with every solver and locator, CVODE, FMI, times and exceptions), with random yields inside the callbacks; ThreadSanitizer and comparison with the same simulation run alone; distinct = different order in which the threads took turns',
            'assume': ['threads share no models, graphs or listeners', 'fewer than 2^32 pins'],
            'technique': 'ThreadSanitizer, offline comparison of per-thread traces with the single-threaded run, uniqueness check over all pins created',
            'need': {'traces_equal': 5000, 'hybrid_traces_equal': 1000, 'cvode_traces_equal': 1000, 'fmi_traces_equal': 1000, 'misc_traces_equal': 1000, 'pins_compared': 1000000, 'thread_switches_between_pins': 300}},
    'C18': {'runs': [E(6500, 200000, 'ode')],
            'rule': 'random linear and nonlinear systems with closed-form solutions, random tolerances, maximum steps, limits and restarts; every step compared with the exact flow; distinct = different start, step and tolerance',
            'assume': ['tolerance checks use linear systems, whose error estimates cannot vanish by accident'],
            'need': {'steps': 5000, 'advances': 1000, 'steps_shortened_for_accuracy': 500, 'order_measurements': 100, 'other_time_scales': 500, 'steps_shortened_to_be_solvable': 200}},
    'C19': {'runs': [E(26000, 1000000, 'loc')],
            'rule': 'random crossing patterns (none, one, several, simultaneous, at the ends, discontinuous) with known crossing times searched by each locator with each solver; distinct = different pattern, first crossing and tolerance',
            'assume': ['each function crosses zero at most once in a step', 'continuous functions for the bisection and linear locators'],
            'need': {'events_located': 3000, 'no_event_in_interval': 500, 'stopped_short': 500, 'simultaneous_events': 200, 'functions_small': 1000, 'functions_zero': 500, 'other_time_scales': 2000}},
    'C20': {'runs': [E(8000, 200000, 'hyb')],
            'rule': 'random piecewise solvable systems with state and time events under each solver and locator, inputs before, at, just past and between events; every callback, state, flag and output compared with the closed-form solution; distinct = different history of event times',
            'assume': ['each event function crosses zero at most once between discrete events', 'after an event the state is away from every event surface'],
            'need': {'internal_events': 5000, 'external_events': 3000, 'confluent_events': 300, 'late_outputs': 500, 'inputs_with_pending_output': 200, 'states_checked': 100000, 'crossings_just_before_time_event': 1000, 'other_time_scales': 500}},
    'C21': {'runs': [E(8000, 600000, 'cv')],
            'rule': 'random solvable systems with state events, time events and immediate outputs behind the callbacks, integrated exactly (3/4) or by the real SUNDIALS CVODE (1/4); inputs without elapsed time, inside of steps, '
                    'just before and at events, look-aheads, removal and addition, simulation again; every callback checked against the timeline; distinct = different case and event history',
            'assume': ['the callbacks do what their documentation asks'],
            'need': {'internal_events': 20000, 'confluent_events': 5000, 'external_events': 50000, 'restarts': 40000, 'with_sundials': 1000, 'removed_and_added': 2000}},
    'C22': {'runs': [E(4000, 150000, 'fmu')],
            'rule': 'random components (0 to 6 states, up to 3 indicators, time events, repeated event iterations, event-mode requests, time-dependent derivatives, directional derivatives) behind a stand-in FMI '
                    'library that checks each call against the FMI 2.0 state machine and the closed-form solution, under each solver and locator, one or two components coupled, inputs before, at and past events; '
                    'files that must be rejected; distinct = different history of event times',
            'technique': 'online checker of the FMI call protocol in a stand-in library, values compared with closed-form solutions, ASan+UBSan build',
            'assume': ['an output computed in advance is not withdrawn (a component cannot be wound back)', 'states are referenced by 0..N-1 and derivatives by N..2N-1, as the adapter documents',
                       'each indicator crosses zero at most once between events'],
            'need': {'calls_checked': 1000000, 'event_iterations_repeated': 10000, 'external_events': 10000, 'confluent_events': 500, 'requested_events': 5000, 'state_events': 2000, 'time_events': 10000,
                     'jacobians_checked': 10000, 'variables_read': 500000, 'variables_set': 10000, 'files_rejected': 80, 'closed_unused': 40}},
}
