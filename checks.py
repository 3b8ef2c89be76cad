def ddp_parts(prop, dims):
    return [dict(name='ddp%s_%s' % (s, str(u).replace('-1', 'D')), src='ddp_main.cpp',
                 flags=['-DPROP=%d' % prop, '-DSD=%d' % s, '-DUD=%d' % u] + (['-DQB=2'] if s > 2 else [])) for s, u in dims]

ALLD = [(1, 1), (2, 1), (2, 2), (2, -1), (3, 3)]

def qp_parts(prop, dims):
    return [dict(name='qp%s_%d' % (str(v).replace('-1', 'D'), n), src='boxqp_main.cpp',
                 flags=['-DPROP=%d' % prop, '-DVD=%d' % v, '-DND=%d' % n]) for v, n in dims]

QPD = [(1, 1), (2, 2), (3, 3), (4, 4), (-1, 1), (-1, 2), (-1, 3)]

def nm(i):
    return str(i).replace('-1', 'D')

def fmpc_parts(prop, dims, extra=()):
    return [dict(name='fmpc%s_%s_%s' % (s, nm(u), nm(g)), src='fmpc_main.cpp',
                 flags=['-DPROP=%d' % prop, '-DSD=%d' % s, '-DUD=%d' % u, '-DGD=%d' % g] + (['-DQB=2'] if s > 2 else []) + list(extra)) for s, u, g in dims]

FMD = [(1, 1, 1), (2, 1, 2), (2, 2, 1), (2, -1, -1), (2, 1, -1), (3, 2, 3)]
def ddpx_parts(prop, dims):
    return [dict(name='ddp%s_%s' % (s, nm(u)), src='ddpx_main.cpp',
                 flags=['-DPROP=%d' % prop, '-DSD=%d' % s, '-DUD=%d' % u] + e) for s, u, e in dims]

def fmpcx_parts(prop, dims):
    return [dict(name='fmpc%s_%s_%s' % (s, nm(u), nm(g)), src='fmpcx_main.cpp',
                 flags=['-DPROP=%d' % prop, '-DSD=%d' % s, '-DUD=%d' % u, '-DGD=%d' % g] + e) for s, u, g, e in dims]

ASSUME = ['floating-point comparisons use tolerances far above rounding and far below the effect of a wrong formula',
          'the problem alphabet (dimension <= 3, horizon <= 24) stands for all problems: small-scope argument, see DESIGN.md']

CHECKS = {
    'C08': dict(level='model_checking', rule='deviation-bounded product of problems, guesses, options; non-trivial: more than one iteration ran', assumptions=ASSUME, parts=fmpc_parts(8, FMD)),
    'C09': dict(level='model_checking', rule='deviation-bounded product of problems, guesses, options; non-trivial: the step was compared with the dense Newton solution', assumptions=ASSUME, parts=fmpc_parts(9, FMD)),
    'C10': dict(level='model_checking', rule='deviation-bounded product of problems, guesses, options, iteration counts; non-trivial: there are inequalities and an iteration was completed', assumptions=ASSUME, parts=fmpc_parts(10, FMD)),
    'C11': dict(level='model_checking', rule='deviation-bounded product of problems, guesses, scale options (and a full grid for the L1 derivative); non-trivial: a line search decision was compared', assumptions=ASSUME, parts=fmpc_parts(11, FMD, ['-DL1GRID'])),
    'C12': dict(level='model_checking', rule='deviation-bounded product of convex problems, guesses, options; every case compared with the exact constrained optimum', assumptions=ASSUME, parts=fmpc_parts(12, FMD)),
    'C05': dict(level='model_checking', rule='full product of environment answers (definiteness, candidate costs) up to the iteration bound, and one-iteration steps on the problem alphabet; every execution is compared with the protocol model', assumptions=ASSUME, parts=[dict(name='scalar', src='ddp05_main.cpp', flags=['-DSCALAR'])] + [
        dict(name='steps%s_%s' % (a, str(b).replace('-1', 'D')), src='ddp05_main.cpp', flags=['-DSD=%d' % a, '-DUD=%d' % b] + (['-DQB=2'] if a > 2 else [])) for a, b in ALLD]),
    'C06': dict(level='model_checking', rule='full product grid of Hessians, gradients, bounds, guesses (and call pairs on one object); every case compared with the exact minimiser found by enumerating active sets', assumptions=ASSUME, parts=qp_parts(6, QPD)),
    'C07': dict(level='model_checking', rule='full product grid of Hessians (also indefinite), gradients, bounds, guesses, limits; every case compared with the reported status, indices, factor and trace', assumptions=ASSUME, parts=qp_parts(7, QPD)),
    'C01': dict(level='model_checking', rule='deviation-bounded product of problem, guess and configuration alphabets; non-trivial: at least one iteration ran', assumptions=ASSUME, parts=ddp_parts(1, ALLD)),
    'C02': dict(level='model_checking', rule='deviation-bounded product of problem, guess and configuration alphabets (incl. non-convex); non-trivial: at least one iteration ran', assumptions=ASSUME, parts=ddp_parts(2, ALLD)),
    'C03': dict(level='model_checking', rule='deviation-bounded product of linear-quadratic / smooth problems, guesses, regularisation settings; non-trivial: an optimum or stationary point was owed and compared with the exact one', assumptions=ASSUME, parts=ddp_parts(3, ALLD)),
    'C04': dict(level='model_checking', rule='deviation-bounded product of problems, limit functions, guesses, iteration limits; non-trivial: at least one input ends at a limit', assumptions=ASSUME, parts=ddp_parts(4, ALLD)),
    'C18': dict(level='model_checking', rule='full product grids of matrices, right-hand sides, guesses, limits and flags; non-trivial: at least one Krylov iteration was compared', assumptions=ASSUME, parts=[dict(name='gmres', src='gmres_main.cpp')]),
    'C19': dict(level='model_checking', rule='full product of right-hand sides, dimensions, times, steps and aliasing; non-trivial: the step is not zero', assumptions=ASSUME, parts=[dict(name='ode', src='ode_main.cpp')]),
    'C20': dict(level='model_checking', rule='deviation-bounded product of problems, dimensions, divisions, times and input sequences; non-trivial: the horizon has positive length', assumptions=ASSUME, parts=[dict(name='cgmres', src='cg_main.cpp', flags=['-DPROP=20'], cgmres=True, libs=['-ldl'])]),
    'C21': dict(level='model_checking', rule='deviation-bounded product of problems and settings over several control steps; every step compared with the exact minimal residual', assumptions=ASSUME, parts=[dict(name='cgmres', src='cg_main.cpp', flags=['-DPROP=21'], cgmres=True, libs=['-ldl'])]),
    'C22': dict(level='model_checking', rule='deviation-bounded product of problems, settings and call sequences; non-trivial: at least one simulation or control step ran', assumptions=ASSUME, parts=[dict(name='cgmres', src='cg_main.cpp', flags=['-DPROP=22'], cgmres=True, libs=['-ldl'])]),
    'C13': dict(level='model_checking', rule='product of malformations, options, earlier calls (free) with problem deviations; every case is a malformed call followed by a valid one', assumptions=ASSUME, parts=ddpx_parts(13, [(2, 1, ['-DBOXCTOR']), (2, -1, [])]) + fmpcx_parts(13, [(2, 1, 2, ['-DDIMQ']), (2, -1, -1, []), (1, 1, -1, [])])),
    'C14': dict(level='model_checking', rule='full product of per-step dimensions with problem and option deviations; every case compares dynamic with fixed dimensions', assumptions=ASSUME, parts=[
        dict(name='ddp', src='dims_main.cpp', flags=['-DDDP']),
        dict(name='fmpc', src='dims_main.cpp', flags=['-DFMPC']),
        dict(name='ddp_zero', src='dims_main.cpp', flags=['-DZERO=0'], compile_is_property=True, what='DDPSolver with statically zero input dimension'),
        dict(name='fmpc_zero', src='dims_main.cpp', flags=['-DZERO=1'], compile_is_property=True, what='FmpcSolver with statically zero input or inequality dimension')]),
    'C15': dict(level='fault_enumeration', rule='full product of callback kind, call index, value and mode with problem and option deviations; non-trivial: the fault was actually hit', assumptions=ASSUME, parts=ddpx_parts(15, [(1, 1, []), (2, 1, []), (2, -1, [])]) + fmpcx_parts(15, [(1, 1, 1, []), (2, 1, 2, []), (2, -1, -1, [])])),
    'C16': dict(level='model_checking', rule='all call sequences of the alphabet up to the length bound with problem deviations; every call compared with a fresh object', assumptions=ASSUME, parts=ddpx_parts(16, [(2, 1, []), (2, -1, [])]) + fmpcx_parts(16, [(2, 1, 2, []), (2, -1, -1, [])]) + [dict(name='reuse', src='reuse_main.cpp')]),
    'C23': dict(level='model_checking', rule='product of where time passes (each callback kind, all, every clock reading), earlier calls, options and failure kinds (free) with problem deviations; non-trivial: time passed', assumptions=ASSUME, parts=[
        dict(name='ddp2_1', src='dur_main.cpp', flags=['-DDDP', '-DSD=2', '-DUD=1']), dict(name='ddp2_D', src='dur_main.cpp', flags=['-DDDP', '-DSD=2', '-DUD=-1']),
        dict(name='fmpc2_1_2', src='dur_main.cpp', flags=['-DFMPC', '-DSD=2', '-DUD=1', '-DGD=2']), dict(name='fmpc2_D_D', src='dur_main.cpp', flags=['-DFMPC', '-DSD=2', '-DUD=-1', '-DGD=-1'])]),
    'C17': dict(level='model_checking', rule='all schedules up to the preemption bound at callback, clock-read and allocation points, and all clock / memory fill / print settings; non-trivial: at least one preemption (schedules)', assumptions=ASSUME, parts=ddpx_parts(17, [(2, 2, []), (2, -1, [])]) + fmpcx_parts(17, [(2, 1, 2, []), (2, -1, -1, [])]) + [dict(name='helpers', src='isolate_main.cpp', flags=['-DVERIF_NO_NAN_INIT'], cgmres=True)]),
}
