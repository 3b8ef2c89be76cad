#!/usr/bin/env python3
"""Regenerates properties.jsonl (the single place where the property texts live)."""
import json
D='nmpc_ddp/include/nmpc_ddp/'; F='nmpc_fmpc/include/nmpc_fmpc/'; G='nmpc_cgmres/include/nmpc_cgmres/'; GS='nmpc_cgmres/src/CgmresSolver.cpp'
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    P.append(d)
p('C01','DDP result is a consistent rollout of the returned inputs',
 'After DDPSolver::solve returns (true or false), the control data has N+1 states, N inputs of the dimension valid at their step and N+1 costs; the first state is the given one, every next state and every cost equals the user state equation, running cost or terminal cost evaluated on the returned states and inputs at time current_t + i*dt. The solver only ever queries the user problem at those grid times, with inputs of the dimension that is valid there.',
 ['inputs','configurations'],'all problems of the alphabet (linear/nonlinear, time-varying, fixed and time-varying input dimension), start times, horizons, line-search lists, regularisation settings and iteration limits up to the deviation bound',
 'Tests look at closed-loop behaviour of a few long runs; a stale cost, state or time in one rarely taken path (rejected step, late backtracking step, max_iter reached, failed solve) is invisible there.',
 [D+'DDPSolver.hpp',D+'DDPSolver.h'],[('initial rollout in solve()',D+'DDPSolver.hpp'),('forwardPass / acceptance in procOnce()',D+'DDPSolver.hpp')],
 [('control_data_','returned trajectory',D+'DDPSolver.h'),('candidate_control_data_','trial trajectory of the line search',D+'DDPSolver.h')],['controlData()','problem callbacks'])
p('C02','DDP never makes the cost worse and its trace tells the truth',
 'With a non-negative acceptance threshold, the total cost of the control data returned by DDPSolver::solve never exceeds the cost of the (limit-clamped) initial inputs, and the costs recorded in the trace never increase from one entry to the next. The trace has one entry per executed iteration (0,1,2,...), its last cost equals the cost of the returned control data, recorded actual cost updates, expected updates and their ratio are consistent with the recorded costs, and dumpTraceDataList writes exactly these entries under its header.',
 ['inputs','configurations'],'all problems of the alphabet incl. non-convex ones that force backtracking and rejection, all listed configurations, all iteration limits up to the bound',
 'Tests do not look at the trace and only at convergence of whole MPC runs.',
 [D+'DDPSolver.hpp'],[('line-search acceptance and trace update in procOnce()',D+'DDPSolver.hpp'),('dumpTraceDataList()',D+'DDPSolver.hpp')],None,['traceDataList()','dumpTraceDataList()','controlData()'])
p('C03','DDP finds the optimum of convex problems and success means stationary',
 'On a linear-quadratic problem with a strictly convex total cost, the inputs returned by DDPSolver::solve (given enough iterations) are the unique minimiser (to numerical tolerance), whatever the initial guess, start time, horizon, regularisation type and time-variation, and it returns true unless the regularisation criterion lambda_thre of the gradient test is what prevents it. On nonlinear problems, when it reports success with the cost-update criterion disabled, the gradient of the total cost with respect to every returned input is as small as the requested gradient threshold implies.',
 ['inputs','configurations'],'all linear-quadratic and smooth nonlinear problems of the alphabet, initial guesses and regularisation settings up to the deviation bound',
 'Tests use one or two problems with loose closed-loop tolerances; an inexact gain or value recursion still converges there.',
 [D+'DDPSolver.hpp'],[('backwardPass (Q-function and value recursion)',D+'DDPSolver.hpp'),('termination checks in procOnce()',D+'DDPSolver.hpp')],None,['solve() return value','controlData()'])
p('C04','DDP respects input limits and optimises within them',
 'With with_input_constraint enabled, every input returned by DDPSolver::solve lies within the limits that the limit function gives for the time of its step, for every initial guess (also one outside the limits), outcome and iteration limit. When it reports success on a convex linear-quadratic problem, the returned inputs satisfy the first-order optimality conditions of the box-constrained problem.',
 ['inputs','configurations'],'all problems of the alphabet x limit functions (symmetric, one-sided, infinite, time-varying, tight, degenerate lower=upper) x initial guesses inside/outside x iteration limits',
 'The test with constraints uses one scalar problem and one constant interval.',
 [D+'DDPSolver.hpp',D+'BoxQP.h'],[('clamping in rollout',D+'DDPSolver.hpp'),('box QP in backwardPass()',D+'DDPSolver.hpp'),('projected Newton',D+'BoxQP.h')],None,['controlData().u_list'])
p('C05','DDP regularisation, line search and termination follow their contract',
 'For every sequence of environment answers (Hessian definite or not, candidate cost better, slightly better, equal, worse or not finite), DDPSolver::solve performs the documented protocol: step sizes are tried in the order of alpha_list and the first acceptable one is taken, the regularisation coefficient and its scale grow by lambda_factor after a failed backward or forward pass and shrink (to zero below lambda_min) after an accepted one, solve returns true exactly when an iteration terminates by the gradient or cost-update criterion, and false exactly on iteration limit or when the coefficient exceeds lambda_max. One iteration applies exactly the regularised DDP step for regularisation type 1 (input Hessian) or 2 (value Hessian).',
 ['histories','inputs','configurations'],'all answer sequences of an adversarial environment up to the iteration bound (full product), and all one-iteration steps on the problem alphabet',
 'Tests never reach failed backward passes, lambda_max, or a rejected line search on purpose.',
 [D+'DDPSolver.hpp'],[('procOnce() steps 2-4',D+'DDPSolver.hpp'),('backwardPass() regularisation',D+'DDPSolver.hpp')],[('lambda_, dlambda_','regularisation state',D+'DDPSolver.h')],['solve() return value','traceDataList()','controlData()'])
p('C06','BoxQP returns the box-constrained minimiser',
 'For a symmetric positive definite Hessian, any gradient, any lower<=upper (infinite bounds allowed) and any initial guess, BoxQP::solve returns a point inside the bounds (exactly), whose objective is not worse than that of the clamped initial guess, and which, for the default configuration, satisfies the first-order optimality conditions of the box-constrained problem whenever it reports convergence (status 4, 5 or 6). Results do not depend on whether the dimension is fixed or dynamic, nor on earlier calls on the same object.',
 ['inputs'],'full product grids of Hessians x gradients x bound patterns x initial guesses in dimension 1, 2 and 3',
 'Tests solve a few seeded problems of dimension 2-3.',
 [D+'BoxQP.h'],[('projected Newton iteration with clamped/free index sets',D+'BoxQP.h')],None,['solve() return value','retval_'])
p('C07','BoxQP reports its outcome truthfully',
 'After BoxQP::solve, the status is a documented one and means what its text says: an indefinite free block is reported as -1, stopping at max_iter as 1, convergence as 4, 5 or 6, and a status has a text. At status 5 or 6 the published free indices are exactly the dimensions not held at a bound by the gradient at the returned point (a zero gradient holds nothing), and the published Cholesky factor, if there are free dimensions, is that of the free block of the Hessian; the trace starts at the clamped initial guess with its objective, its objectives never increase and iterations are numbered consecutively; for every completed iteration it tells the point, the dimensions clamped there, the Newton direction of the free ones, the number of factorizations so far and the number of line-search steps, which is zero exactly when the full (clamped) step gives the fraction of the linear improvement that the Armijo parameter requires.',
 ['inputs','configurations'],'full product grids (definite and indefinite Hessians, bounds, guesses, iteration limits)',
 'Tests only print the status.',
 [D+'BoxQP.h'],[('retval_, free_idxs_, llt_free_ bookkeeping',D+'BoxQP.h')],None,['retval_','retstr_','free_idxs_','llt_free_','traceDataList()'])
p('C08','FMPC reports Succeeded exactly when the KKT error is small',
 'When FmpcSolver::solve returns Succeeded, the KKT error of the returned variables (initial state, dynamics, inequality with slack, stationarity in states and inputs, complementarity), recomputed from the user problem at times current_t + i*dt, is at most kkt_error_thre; it returns MaxIterationReached only after exactly max_iter iterations each of which had a larger error. The trace has one entry per iteration with the KKT error of the variables at its start, and dumpTraceDataList writes exactly these entries.',
 ['inputs','configurations'],'all problems of the alphabet (dimension patterns incl. empty inequality, nonlinear, time-varying) x guesses x options x iteration limits',
 'The oscillator test accepts success without recomputing the error.',
 [F+'FmpcSolver.hpp'],[('coefficient calculation and calcKktError()',F+'FmpcSolver.hpp'),('solve() status handling',F+'FmpcSolver.hpp')],None,['solve() return value','variable()','traceDataList()'])
p('C09','One FMPC iteration is the primal-dual interior-point Newton step',
 'One iteration of FmpcSolver::solve without line search changes the variables exactly (to rounding) by the solution of the linearised perturbed KKT system of the whole horizon, with the documented barrier parameter, scaled for states, inputs and slacks by the largest step in (0,1] that keeps 0.5 percent of every slack, and for multipliers by the corresponding step that keeps 0.5 percent of every inequality multiplier. k iterations in one call give the same variables as k calls of one iteration each started from the previous result.',
 ['inputs','configurations'],'all problems of the alphabet, guesses, options (barrier update, initialisation of complementary variables) up to the deviation bound',
 'Tests only see the closed loop; an inexact Newton direction still converges.',
 [F+'FmpcSolver.hpp'],[('backward/forward Riccati recursion',F+'FmpcSolver.hpp'),('fraction-to-boundary rule in updateVariables()',F+'FmpcSolver.hpp')],[('barrier_eps_','barrier parameter',F+'FmpcSolver.h')],['variable()'])
p('C10','FMPC keeps slacks and multipliers strictly positive',
 'For every problem, option set and number of iterations, every slack and inequality multiplier in the variables returned by FmpcSolver::solve is strictly positive and finite if the initial ones were (or if they are initialised by the solver), and in one iteration none of them shrinks below 0.5 percent of its previous value. With initialisation of complementary variables enabled they start strictly positive for every initial state and input guess, feasible or not.',
 ['inputs','configurations'],'all problems of the alphabet x guesses (also infeasible, near zero slacks) x options x iteration counts',
 'One problem, one guess in the tests; negative slacks only appear for aggressive steps.',
 [F+'FmpcSolver.hpp'],[('fraction-to-boundary rule',F+'FmpcSolver.hpp'),('init_complementary_variable',F+'FmpcSolver.hpp')],None,['variable().s_list','variable().nu_list'])
p('C11','FMPC line search accepts only steps that decrease the merit function',
 'With enable_line_search, an iteration of FmpcSolver::solve moves states, inputs and slacks along the Newton direction by the largest step a*2^-j (a: fraction-to-boundary step) for which the L1 merit function (cost, barrier, scaled constraint violation) is smaller than its value plus 1e-3 times step times its true directional derivative, for both ways of choosing the constraint scale; multipliers still take their own fraction-to-boundary step. The directional derivative of the L1 norm used for it is correct for every function value, Jacobian and direction, including zero components.',
 ['inputs','configurations'],'all problems of the alphabet x guesses x both scale options x barrier options; full product grid for the L1-norm derivative',
 'No test enables line search on a case where it backtracks and checks the step; the L1-derivative test samples random matrices.',
 [F+'FmpcSolver.hpp',F+'MathUtils.h'],[('setupMeritFunc()/calcMeritFunc()/updateVariables()',F+'FmpcSolver.hpp'),('l1NormDirectionalDeriv()',F+'MathUtils.h')],None,['variable()','l1NormDirectionalDeriv()'])
p('C12','FMPC reaches the constrained optimum of convex problems',
 'On a linear-quadratic problem with affine inequality constraints that is strictly convex and strictly feasible, FmpcSolver::solve (given enough iterations, from any positive initial slacks and multipliers, with or without its own initialisation of them) returns Succeeded, and the returned states and inputs satisfy the constraints and equal the unique minimiser within the requested tolerance.',
 ['inputs','configurations'],'all convex feasible problems of the alphabet x guesses x options',
 'One nonlinear problem with one horizon in the tests, without a reference optimum.',
 [F+'FmpcSolver.hpp'],[('the whole interior-point iteration',F+'FmpcSolver.hpp')],None,['solve() return value','variable()'])
p('C13','Malformed initial guesses and dimensions are rejected, solver stays usable',
 'A call of DDPSolver::solve or FmpcSolver::solve whose initial sequences have a wrong length, whose elements have a wrong (dynamic) dimension, or (FMPC, unless the solver initialises them itself) whose slacks or multipliers have a wrong dimension or are negative, throws a standard exception before any problem callback sees inconsistent data, with every option combination; a DDP call that throws leaves the previously returned control data intact; and the next valid call gives the same result as on a fresh solver. BoxQP rejects non-positive and inconsistent dimensions at construction, and dynamic-dimension problems reject the dimension queries that need a time.',
 ['inputs','histories','configurations'],'all combinations of lengths N-1,N,N+1,0 per sequence, wrong dimensions per element, negative entries per element, options, followed by a valid call',
 'No test passes malformed data.',
 [D+'DDPSolver.hpp',F+'FmpcSolver.hpp',D+'BoxQP.h',D+'DDPProblem.h',F+'FmpcProblem.h'],[('initial_u_list checks',D+'DDPSolver.hpp'),('checkVariable()',F+'FmpcSolver.hpp'),('constructor checks',D+'BoxQP.h')],None,['exceptions','controlData()'])
p('C14','Time-varying, empty and zero dimensions are supported',
 'DDPSolver and FmpcSolver accept problems whose input (and, for FMPC, inequality) dimension is dynamic and changes from step to step, including steps with no input or no inequality, and statically zero input dimension (with fixed inequality dimension) or inequality dimension, with every option. Their results agree with those of the same solver on an equivalent problem of fixed dimension (same sizes, or padded with inputs that have no effect and cost u^2).',
 ['inputs','configurations'],'all per-step dimension patterns over {0,1,2} up to the horizon bound x problems x options',
 'Two tests use a dynamic input dimension in one pattern; none uses dynamic or zero inequality dimension.',
 [D+'DDPSolver.hpp',F+'FmpcSolver.hpp',D+'DDPProblem.h',F+'FmpcProblem.h',F+'MathUtils.h'],[('per-step resizing of derivatives and coefficients',D+'DDPSolver.hpp'),('Setup coeff_list_',F+'FmpcSolver.hpp')],None,['controlData()','variable()'])
p('C15','Non-finite user values never produce a reported success',
 'If any single value or derivative callback of the user problem returns NaN or infinity at any call during solve, DDPSolver::solve and FmpcSolver::solve terminate without crashing, never report success on data derived from it, and with NaN checking enabled FMPC leaves its variables finite if they were finite when its iterations started; DDP returns control data whose cost is finite unless the initial rollout itself was not. The next fault-free call gives the same result as on a fresh solver.',
 ['fault_sequences','inputs','configurations'],'every callback kind x every call index x {NaN,+inf,-inf} x problems x options, single and (thorough) persistent faults',
 'No test injects non-finite values.',
 [D+'DDPSolver.hpp',F+'FmpcSolver.hpp'],[('containsNaN checks',F+'FmpcSolver.hpp'),('finite-gain check and cost comparison',D+'DDPSolver.hpp')],None,['solve() return value','controlData()','variable()'])
p('C16','A reused solver behaves like a fresh one',
 'The outcome of solve on a DDPSolver, FmpcSolver, BoxQP or Gmres object depends only on its configuration and arguments, not on the calls made before on the same object (except for the barrier parameter of FMPC when it is neither updated nor initialised): after any sequence of earlier calls (other problem data or sizes reached through time, horizons, iteration limits, failures, exceptions, other options) the result, trace and all readable data equal those of a freshly constructed object. The arguments passed in are not modified, and may be earlier results held by the same object.',
 ['histories','configurations'],'all call sequences up to length 3 (quick) / 4 (thorough) over an alphabet of calls, compared with a fresh object at every step',
 'Tests reuse a solver in one MPC loop and cannot tell stale data from warm start.',
 [D+'DDPSolver.hpp',F+'FmpcSolver.hpp',D+'BoxQP.h',G+'Gmres.h'],[('re-initialisation at the start of solve()',D+'DDPSolver.hpp'),('setup of coefficients, deltas and barrier parameter',F+'FmpcSolver.hpp')],None,['all public accessors'])
p('C17','Solver instances are isolated and results are deterministic',
 'Two solver objects used alternately or with their solves interleaved at any user-callback boundary (as happens with two threads or with nested solves) do not influence each other: each gives the result it gives alone. The result of a solve does not depend on the wall clock, on the contents of uninitialised memory, or on printing options.',
 ['schedules','configurations'],'all interleavings of two solves (same or different solver class) at callback boundaries up to the preemption bound; clock sequences; memory fill patterns; print levels',
 'Tests run one solver at a time, in one process state.',
 [D+'DDPSolver.hpp',F+'FmpcSolver.hpp',GS,D+'BoxQP.h'],[('all state is per object; no globals or statics',D+'DDPSolver.hpp')],None,['all public accessors'])
p('C18','GMRES solves linear systems and reports true residuals',
 'For every nonsingular matrix, right-hand side (also zero) and initial guess, Gmres::solve with k_max at least the dimension returns the solution to numerical accuracy; with smaller k_max it returns a point whose residual is the minimum over the initial guess plus the Krylov space of that order, never larger than the initial residual. The reported error list starts with the initial residual norm, never increases, its last entry is the true residual norm of the returned point, and all variants (triangularised or not, reorthogonalised or not, matrix or function) agree.',
 ['inputs','configurations'],'full product grids of matrices, right-hand sides, guesses, iteration limits and option flags in dimension 1-3, structured matrices up to dimension 6',
 'The test solves a few random systems to full dimension.',
 [G+'Gmres.h'],[('Arnoldi with Givens rotations / QR',G+'Gmres.h')],None,['x','err_list_'])
p('C19','ODE solvers integrate with their stated method and order',
 'EulerOdeSolver and RungeKuttaOdeSolver return x + dt*f(t,x,u) and the classical fourth-order Runge-Kutta step respectively for every right-hand side, including explicitly time-dependent ones, negative and zero steps, every state dimension and output aliasing the input, evaluating the right-hand side only with the given input; in particular they are exact for polynomials in time of degree 0 and 3.',
 ['inputs'],'full product of right-hand sides, dimensions, start times, steps and aliasing patterns',
 'No test targets the integrators.',
 [G+'OdeSolver.h'],[('EulerOdeSolver::solve, RungeKuttaOdeSolver::solve',G+'OdeSolver.h')],None,['ret'])
p('C20','C/GMRES optimality residual is the gradient of the horizon cost',
 'CgmresSolver::calcDhDuList returns, for every state, time and input sequence, the derivative of the Hamiltonian at each horizon stage along the state trajectory integrated forward from the given state and the costate integrated backward from the terminal cost gradient over a horizon of length T(t)=T_f(1-exp(-alpha t)) divided into equal steps; with the Euler integrator this times the step length is the gradient of the discretised horizon cost. It does not change the stored input sequence.',
 ['inputs','configurations'],'all problems of the alphabet x dimensions (incl. auxiliary inputs) x horizon divisions x times x input sequences x both integrators',
 'The tests compare closed-loop end states with loose bounds.',
 [GS,G+'CgmresSolver.h'],[('calcDhDuList()',GS)],None,['DhDu_list'])
p('C21','C/GMRES control update solves the continuation equation',
 'CgmresSolver::calcControlInput changes the stored input sequence by dt times the vector that minimises the residual of the finite-difference continuation equation over the Krylov space of order k_max started at the previous vector; with k_max covering all unknowns on a linear-quadratic problem the equation is satisfied and the optimality residual decays by the factor (1 - zeta dt) per step. The input returned is the first stage of the updated sequence.',
 ['inputs','histories','configurations'],'all problems of the alphabet x k_max x zeta x dt x states, over sequences of several control steps',
 'The tests compare closed-loop end states with loose bounds.',
 [GS,G+'Gmres.h'],[('calcControlInput(), eqAmulFunc()',GS)],None,['u','u_list_'])
p('C22','C/GMRES setup and closed-loop run are sound and repeatable',
 'CgmresSolver::setup makes the initial input satisfy the zero-horizon optimality condition when it can be solved, fills the whole horizon with it and resets all carried-over data; run() simulates the plant with the simulation integrator and one control update per period, from time 0 to the simulation duration, and writes one log line per dump interval with time, state, input and residual norm. Calling setup or run again on the same solver gives the same result as on a fresh solver.',
 ['inputs','histories','configurations'],'all problems of the alphabet x settings x sequences of setup/run/control calls',
 'The tests call run() once per solver and check the end state.',
 [GS,G+'CgmresSolver.h'],[('setup(), run()',GS)],None,['u_list_','x_','u_','log files'])
p('C23','Reported computation durations are those of the last solve',
 'After a DDP or FMPC solve that returns, computationDuration() describes that call alone, in milliseconds: all durations are non-negative, setup and opt together are the elapsed time between call and return (solve), and the phase totals (DDP: derivative, backward, forward; FMPC: coeff, backward, forward, update) equal the sums of the corresponding durations of the trace entries. Time passed inside user callbacks is counted in the phase that calls them (DDP: initial rollout in setup, derivatives in derivative, line-search rollouts in forward; FMPC: initialisation of complementary variables in setup, residuals and derivatives in coeff, merit evaluations in update). Phases together never exceed opt, and the parts (Q, reg, gain; gain_pre, gain_solve, gain_post; fraction) never exceed the phase documented to include them, whatever the outcome: also for earlier calls, failed passes, rejected steps and zero iterations.',
 ['inputs','histories','configurations'],'all problems of the alphabet x where time passes (each callback kind, all, every clock reading) x earlier calls x failure kinds x options',
 'The tests dump durations without checking them, and real clocks cannot show where a millisecond was attributed.',
 [D+'DDPSolver.h',D+'DDPSolver.hpp',F+'FmpcSolver.h',F+'FmpcSolver.hpp'],[('ComputationDuration, solve(), procOnce()',D+'DDPSolver.hpp'),('ComputationDuration, solve(), procOnce()',F+'FmpcSolver.hpp')],None,['computationDuration()','traceDataList()'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
