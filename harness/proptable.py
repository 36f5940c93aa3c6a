"""The properties (source of properties.jsonl and MANIFEST.json)."""


def fill(prop, CONT):
    tech = 'TLA+ model checked by TLC; TLC-enumerated histories replayed on the code, traces validated by TLC'
    note = ('Every history of solver answers up to the stated length is checked on the specification and replayed '
            'through the real driver with an instrumented solver; larger plans are sampled. Trusts TLC, the harness '
            'and the tolerance (1e-4 in a constant, 1e-6 in its logarithm) of the recorded values.')
    prop('C01', 'Continuation visits exactly the requested schedule of problem constants',
         'Running a sequence of continuation steps changes only the constants each step names; a step starts at the '
         'values the previous step ended with (the guess\'s, for the first one) and visits the requested points: '
         'evenly spaced (linearly or logarithmically as asked) up to exactly the target for line steps, every point '
         'of the grid once for product steps. Step objects used for a second run behave exactly like fresh ones.',
         ['histories', 'inputs', 'configurations'],
         'every plan of steps (strategy, named constants, targets, number of cases, spacing), every history of solver '
         'outcomes, every number of earlier runs of the same step objects',
         'The examples run a handful of fixed bisection/productspace plans whose solver mostly converges and look at '
         'the final solution only; manual/log/sparse plans, chained and reused steps are never observed.',
         [CONT], [('schedule computation per strategy', CONT + ': init of each strategy'),
                  ('chaining of steps', CONT + ': run_continuation_set')],
         [('schedule', 'remaining points of the step', CONT + ': ContinuationVariable.steps')],
         ['arguments of the solver calls made by the continuation runner'],
         technique=tech, note=note)
    prop('C02', 'Bisection recovers from failures inside the failed interval and always ends',
         'When a case of a bisection step fails, the next attempts subdivide the interval from the last converged '
         'point to the failed one into the configured number of parts (in the step\'s spacing), and then every '
         'remaining requested point is still visited. The step is abandoned, with an error, only if its first case '
         'fails, if more consecutive subdivisions than the limit (plus one) fail, or if no number lies between the '
         'two points any more; so every run ends.',
         ['histories', 'fault_sequences', 'configurations'],
         'every sequence of solver successes and failures, every number of cases, divisions and limit',
         'No test makes the solver fail on chosen cases; the examples rarely need a second subdivision.',
         [CONT], [('subdivision, counter rewind, case count', CONT + ': BisectionStrategy.next')],
         [('ctr, division_ctr, num_cases', 'position and consecutive subdivisions', CONT)],
         ['arguments and outcome of the solver calls', 'exception that ends the run'],
         technique=tech, note=note)
    prop('C03', 'A failed or impossible continuation stops with an error, never silently',
         'A manual step raises an error as soon as a case has not converged; product steps raise one only if their '
         'very first case fails and otherwise go on over all points. A step naming a constant the problem does not '
         'have is rejected before anything is solved in it, and the number of cases cannot be changed while a step '
         'is running.',
         ['histories', 'fault_sequences', 'inputs'],
         'every sequence of solver successes and failures, every plan', 'Error paths are not tested at all.',
         [CONT], [('convergence test before the next case', CONT + ': next of each strategy'),
                  ('name check', CONT + ': init of each strategy')],
         [], ['exception that ends the run', 'solver calls made'], technique=tech, note=note)
    prop('C04', 'Every case is warm-started from the closest converged solution of its step',
         'The guess handed to the solver for a case is, unaltered apart from the constants, a converged solution '
         'obtained earlier in the same step whose constants are closest (sum of absolute differences) to the '
         'requested ones; before any case of the step has converged it is the solution the step started from.',
         ['histories', 'inputs'], 'every plan and every history of solver outcomes',
         'Only the number of iterations is affected on the sampled problems, so tests pass with any other guess.',
         [CONT], [('closest solution', CONT + ': get_closest_gamma')],
         [('recorded solutions of the step', 'candidates', CONT + ': gammas')],
         ['guess passed to the solver'], technique=tech, note=note)
    prop('C05', 'The returned solution lists record every attempt, in order, unaltered',
         'A continuation run returns one list per step and in it one solution per solver call, in order, with the '
         'solver\'s data, convergence flag and the constants it was solved for, none altered by later cases; without '
         'steps it is a single list with a single solution for the guess\'s constants. What is saved to disk on '
         'request equals what is returned.',
         ['histories', 'configurations'], 'every plan and every history of solver outcomes, with and without saving',
         'The tests look at the last solution of a run only.',
         [CONT, 'beluga/beluga.py', 'beluga/utils/storage.py'],
         [('append of copies', CONT + ': run_continuation_set')],
         [], ['return value of the continuation runner and of solve()', 'the saved file'], technique=tech, note=note)
    SYM = 'beluga/symbolic/data_classes/mapping_functions.py'

    MAPS = 'beluga/numeric/data_classes/trajectory_mappers.py'
    COMP = 'beluga/numeric/compilation/component_compilation.py'
    tech = ('TLA+ derivation state machine model checked by TLC (every order of the transformations); the boundary '
            'value problem TLC derives is compared with the compiled one, the comparison validated by TLC')
    note = ('For every problem of the (seeded) family TLC checks the derivation in every order and writes the expected '
            'conditions as expression trees; the functions the code compiled are evaluated at random points against '
            'them (relative tolerance 1e-6). Problems and points are sampled. Trusts TLC, the tree evaluator and '
            'floating point.')
    prop('C07', 'The derived BVP is exactly the first-order necessary conditions',
         'For a problem given by dynamics, cost, boundary constraints, the boundary value problem handed to the '
         'solver consists of the dynamics x\' = f, the costate rates -dH/dx, the control rates that keep dH/du '
         'stationary, the boundary constraints, the transversality conditions at both ends, the free-time condition '
         'H = 0 and the stationarity conditions, all over time stretched to [0, 1] by the unknown duration; as many '
         'conditions as unknowns. This holds for the traditional and the differential-geometric method, whatever the '
         'names and the order in which things are declared. Requested analytical Jacobians are the derivatives of '
         'those functions.',
         ['inputs', 'configurations'],
         'every problem, every method and control method, every point (state, parameter, multiplier, constant)',
         'The tests solve a few example problems and look at the converged end points; a wrong sign in a term that is '
         'zero there, or in a Jacobian, only changes the number of iterations.',
         [SYM, 'beluga/symbolic/data_classes/symbolic_problem.py', COMP, 'beluga/numeric/data_classes'],
         [('dualization', SYM + ': Dualize and the Hamiltonian'), ('compilation', COMP)],
         [], ['derivative and boundary-condition functions the solver receives'], technique=tech, note=note)
    prop('C08', 'The algebraic control law picks the minimizing stationary control everywhere',
         'With the algebraic control method the control used in the dynamics and reported in the solution satisfies '
         'dH/du = 0 and gives a Hamiltonian no larger than any other control when several candidates exist, at every '
         'point where a real candidate exists, however many candidates there are and whichever of them are real.',
         ['inputs', 'configurations'],
         'every problem with a closed-form control law, every point of the state-costate space',
         'The examples with algebraic control have one or two candidates and visit a thin set of points.',
         [COMP, MAPS, 'beluga/symbolic'],
         [('choice of the candidate', COMP + ': compile_control'), ('choice when mapping back', MAPS)],
         [], ['control function of the problem', 'derivative function the solver receives'], technique=tech,
         note=note + ' Problems whose closed form needs complex intermediate arithmetic (three real roots of a cubic) '
                     'are outside the family: the real-arithmetic code cannot represent them.')
    prop('C09', 'Inequality constraints become the documented penalties or bounded controls',
         'Every two-sided inequality constraint contributes to the cost, at its own location (initial, path or '
         'terminal), the secant penalty that is zero in the middle and infinite at the bounds, scaled by its '
         'activator; or, for the trigonometric method, replaces the control by its bounded form everywhere and adds '
         'the regularizing term. No constraint is dropped, duplicated or applied to the wrong bound, whatever their '
         'number, order and mixture, and bounds may be expressions.',
         ['inputs', 'configurations'], 'every set of inequality constraints of every problem',
         'The examples have one or two constraints with constant bounds, often symmetric.',
         [SYM], [('penalties', SYM + ': UTM and epsilon-trig transformations')],
         [], ['derivative and boundary-condition functions the solver receives'], technique=tech, note=note)
    prop('C10', 'Quantities and switches mean exactly their definitions',
         'Replacing an abbreviation (quantity) by its definition, nested ones included and in whatever order they are '
         'declared, or a switch by its smoothed stages (each function times the sum of the sigmoids of '
         'its conditions), gives the same boundary value problem: abbreviations never '
         'change the meaning of a problem and are differentiated through.',
         ['inputs', 'configurations'], 'every set of quantities and switches, every nesting and declaration order',
         'Declaration orders and nesting are fixed in the examples.',
         [SYM], [('substitution', SYM + ': quantities, switches')],
         [], ['derivative and boundary-condition functions the solver receives'], technique=tech, note=note)
    prop('C11', 'Mapping a trajectory to the internal problem and back changes nothing',
         'A guess given in the user\'s variables is carried to the corresponding columns of the internal problem '
         '(states, time as a state, costates, controls, bounded controls through the inverse of their form, duration) '
         'and a solution of the internal problem is carried back by the inverse: time, states, controls, costates and '
         'constants are those of the internal solution under the inverse transformations, and mapping forth and back '
         'is the identity; multipliers that come with a guess are kept.',
         ['inputs', 'configurations'], 'every problem, configuration and trajectory',
         'The tests compare few end-point values of converged solutions; a guess that is mapped wrongly is repaired '
         'by the solver.',
         [MAPS], [('mappers', MAPS + ': map and inv_map of each mapper')],
         [], ['forward and inverse trajectory maps handed to the guess generator'], technique=tech, note=note)
    prop('C20', 'The reported cost is the cost of the returned trajectory',
         'The cost of a returned solution equals initial plus terminal cost plus the integral of the path cost along '
         'the returned trajectory, penalties of the inequality constraints included, at the returned time, states, '
         'controls and constants.',
         ['inputs', 'configurations'], 'every problem, configuration and trajectory',
         'The tests check the cost of a few converged solutions of problems without penalties.',
         [MAPS, COMP], [('cost evaluation', COMP + ': compile_cost'), ('when', MAPS + ': DualizeMapper.inv_map')],
         [], ['cost of the solution after the inverse map'], technique=tech,
         note=note + ' Tolerance 1e-4 (quadrature on 161 points).')

    BVP = 'beluga/numeric/bvp_solvers'
    prop('C12', 'Composed problem transformations apply exactly their parts, in the right order',
         'Composition of problem transformations (*, <<, >>, ** and their in-place forms) applies exactly the parts '
         'of both operands, each once, in the order the operator says; composing never changes an operand, powers '
         'repeat, the zeroth power and the plain transformation do nothing, negative or fractional powers are refused. '
         'A transformation applied to a problem that has not reached the stage it needs is refused with an error '
         'instead of producing a wrong problem.',
         ['inputs', 'histories'],
         'every sequence of compositions, and every order of the elementary transformations',
         'The code always composes the same few pipelines in the same order; the tests never look at a composition.',
         ['beluga/symbolic/data_classes/mapping_functions.py', 'beluga/symbolic/data_classes/symbolic_problem.py'],
         [('composition', 'mapping_functions.py: GenericFunctor, ComposableFunctor'),
          ('stage tests', 'mapping_functions.py: ensure_sympified, ensure_dualized')],
         [], ['result of applying a composed transformation', 'exception raised'],
         technique='TLA+ model of transformations as words, model checked by TLC; every composition history and '
                   'transformation order TLC enumerates is replayed on the code, traces validated by TLC',
         note='All composition histories up to 2 (quick) or 3 (thorough) operations on three registers; orders of the '
              'transformations up to the stated length, evenly sampled. Trusts TLC and the harness.')
    tech = ('TLA+ specification of boundary value problems with exact rational solutions and of solver objects, model '
            'checked by TLC; the instances and histories TLC enumerates are run on the real solvers, traces validated '
            'by TLC')
    note = ('Instances (11 types: parameters, multipliers, quadratures, several of each, nonlinear, unsolvable, infeasible flank) with small integer '
            'constants, enumerated by TLC and solved by every algorithm and arc count of the configuration list. '
            'Trusts TLC, the harness and the tolerances (1e-4 in the solution).')
    prop('C13', 'A solver never reports as converged what is not a solution',
         'When a solver (collocation, single or multiple shooting with any algorithm) reports convergence, the '
         'returned trajectory satisfies the boundary conditions to the requested tolerance with the returned '
         'parameters and multipliers, obeys the differential equations and quadratures over the whole interval '
         'without jumps at the arcs, and spans the interval of the guess on a strictly monotone mesh; a problem '
         'without a solution is never reported as converged, and the flags of the result agree with each other.',
         ['inputs', 'configurations'],
         'every boundary value problem, guess, algorithm, number of arcs',
         'The tests solve a dozen solvable problems from good guesses; no test offers a solver an unsolvable problem.',
         [BVP], [('convergence decision', BVP + '/Shooting.py, spbvp.py: solve')],
         [], ['trajectory and flags returned by solve'], technique=tech, note=note)
    prop('C14', 'Solving with a process pool gives the result of solving serially',
         'Multiple shooting with a pool of worker processes returns the same solution, bit for bit, as without one, '
         'whatever number of arcs and workers, and in whatever order the pool works on the arcs.',
         ['schedules', 'configurations'], 'every order in which the pool executes the tasks, every number of arcs',
         'No test runs with more than one process.',
         [BVP + '/Shooting.py'], [('pool use', BVP + '/Shooting.py: propagation of the arcs')],
         [], ['trajectory returned by solve'], technique=tech + '; every execution order of the pool enumerated by TLC',
         note='Every order of up to 4 arcs, with an in-process pool that executes in the order TLC chose (a real pool '
              'of processes only adds pickling). Trusts TLC and the harness.')
    prop('C15', 'Every solver configuration finds the solution of a well-posed problem',
         'For a boundary value problem with a unique solution, from any reasonable guess, each solver and algorithm '
         'that supports the problem\'s features (unknown parameters, multipliers, quadratures, analytical Jacobians, '
         'any number of arcs) converges to that solution: the same trajectory, parameters, multipliers whatever '
         'configuration is used.',
         ['inputs', 'configurations'], 'every well-posed problem, solver configuration and guess',
         'The tests use the collocation solver and single-algorithm shooting on a few problems, mostly without '
         'quadratures, multipliers or Jacobians.',
         [BVP], [('Newton systems', BVP + '/Shooting.py, spbvp.py')],
         [], ['trajectory returned by solve'], technique=tech, note=note)
    prop('C18', 'Solving leaves no trace: results depend on the inputs only',
         'The result of a solver depends only on the functions it was last given, on the guess and on the options: '
         'not on what the object solved before, nor on being a fresh object. The guess, its constants and arrays are '
         'not modified by solving.',
         ['histories', 'inputs'], 'every history of function changes and solves on a solver object',
         'Each test uses its own solver object and never looks at the guess again.',
         [BVP], [('functions stored in the object', BVP + '/BaseAlgorithm.py')],
         [('function attributes', 'the functions last given', BVP + '/BaseAlgorithm.py')],
         ['trajectory returned by solve', 'the guess after solving'], technique=tech,
         note='Every history up to the stated length over the enumerated instances; the result is compared bit for '
              'bit with a fresh object\'s. Trusts TLC and the harness.')
    prop('C06', 'Automatic scaling never changes the problem or its solution',
         'With scaling requested, the solver is given the same boundary value problem in other units: each variable, '
         'parameter, multiplier and constant is divided by the product of the unit sizes given for its units (sizes '
         'taken from the guess being solved, again for every solve), the solver\'s answer is multiplied back by the '
         'same factors, and a trajectory scaled and unscaled is unchanged. Nothing is scaled when scaling is off, and '
         'inconsistent units are refused. The scaled functions are those of the unscaled problem at the unscaled '
         'point; all this holds for reduced problems, too.',
         ['inputs', 'configurations', 'histories'],
         'every assignment of units and unit sizes, every trajectory, every method',
         'The examples use one consistent set of units each, so a wrong factor only slows the convergence.',
         [SYM, COMP, CONT],
         [('units of every variable', SYM), ('factors', 'scaling functions compiled with the problem'),
          ('use', CONT + ': run_continuation_set')],
         [], ['guess handed to the solver', 'solution returned by the continuation runner'],
         technique='TLA+ specification of the unit algebra (exponent vectors, sizes as powers of two) model checked by '
                   'TLC; the assignments TLC enumerates are run on the code, recorded factors validated by TLC',
         note='One mechanical problem with arbitrary units (exponents in a small range) of its states, mass and cost, '
              'all methods and constraint forms; factors exact (powers of two). Trusts TLC and the harness.')
    prop('C25', 'Solving returns the optimum, whatever configuration is used',
         'For an optimal control problem with a known unique optimum, solve() with any combination of method, control '
         'method, reduction, solver, number of arcs, analytical Jacobians, scaling, kind of guess and continuation '
         'plan returns a converged solution whose time, states, controls, costates and cost are those of the optimum.',
         ['inputs', 'configurations'], 'every problem with a solution, every supported combination of options',
         'The tests solve a few problems in one or two configurations each and look at end points.',
         ['beluga'], [('solve', 'beluga/beluga.py: solve')], [], ['return value of solve()'],
         technique='TLA+ specification of problems with polynomial optima over exact fractions (TLC checks the '
                   'necessary conditions, and that no admissible variation does better); instances and '
                   'configurations enumerated by TLC solved through the public interface, results validated by TLC',
         note='Linear-quadratic problems and minimum-energy problems with fixed/free time and end states; integer '
              'data. Tolerance 1e-3 in the trajectory. Trusts TLC and the harness.')
    IVP = 'beluga/numeric/ivp_solvers/ivpsol.py'
    prop('C16', 'Propagation and quadrature follow the equations over exactly the interval asked',
         'Propagating an initial value problem, forward or backward in time, with any stepper, variable or fixed step, '
         'returns a strictly monotone mesh from exactly the first to exactly the last time with steps no larger than '
         'the maximum, states that solve the equations at every mesh point and, unless only the end is asked for, '
         'quadratures that do too; the propagator keeps nothing between calls and does not modify its arguments. '
         'Integrating quadratures along a given trajectory gives the integral over any subinterval (so it is '
         'additive), added to the quadratures the trajectory already has at its beginning, and an interval outside '
         'the trajectory is refused.',
         ['inputs', 'configurations', 'histories'],
         'every initial value, interval, direction, stepper, step setting and trajectory',
         'The tests propagate three problems forward with the default settings and compare one-sidedly.',
         [IVP], [('propagation', IVP + ': Propagator'), ('quadratures', IVP + ': reconstruct, integrate_quads')],
         [], ['trajectory returned by the propagator', 'value of the quadrature'],
         technique='TLA+ specification of a flow with exact polynomial solutions (group property, additivity checked '
                   'by TLC); histories of legs enumerated by TLC run through the real propagator, validated by TLC',
         note='One family of equations with polynomial solutions of degree three, integer data, all steppers and '
              'settings. Meshes with a step of rounding size (chosen by the library stepper) are allowed less accurate '
              'quadratures. Trusts TLC and the harness.')
    TRJ = 'beluga/numeric/data_classes/Trajectory.py'
    prop('C17', 'A trajectory evaluates to its own current data, in consistent shapes',
         'Evaluating a trajectory at a time or a sequence of times returns, for states, quadratures and controls, the '
         'interpolation (linear, cubic, or the user\'s function) of the data the object holds at that moment, whatever '
         'was assigned or changed in place before, on an increasing or decreasing mesh, for any number of columns '
         '(none, a plain vector, a column, several), exact at the nodes; indexing and slicing return the rows of '
         'the same nodes; times outside the mesh are refused and an empty trajectory is empty.',
         ['inputs', 'histories'], 'every history of assignments, every mesh, time and number of columns',
         'One test evaluates a two-point sample of one scalar trajectory.',
         [TRJ], [('evaluation', TRJ + ': __call__'), ('rows', TRJ + ': __getitem__')],
         [('t, y, q, u, interpolate', 'data and interpolation of the object', TRJ)],
         ['values and shapes returned by evaluation and indexing'],
         technique='TLA+ specification of the object with exact values, model checked by TLC; every history of '
                   'assignments TLC enumerates replayed on the code, traces validated by TLC',
         note='All histories of two (quick) or three (thorough, sampled) assignments over four meshes and polynomial '
              'data, where both interpolations are exact. Trusts TLC and the harness.')
    GG = 'beluga/continuation/guess_generators.py'
    prop('C24', 'The initial guess is the one described by the settings',
         'The trajectory handed to the solver first is the one the guess generator\'s last settings describe: in '
         'automatic mode it starts at the given states, costates and controls at time zero and follows the problem\'s '
         'own equations over the given duration in the given direction; in constant mode it repeats the start on four '
         'points; in static mode it is the user\'s trajectory, which is not modified and can be used again. Scalar '
         'guesses stand for all columns. Settings are those last given, however they were given, and impossible ones '
         'are refused. Constants are the problem\'s; on request exactly those named after an end of a state or of '
         'time are set to the guess\'s end values.',
         ['inputs', 'histories', 'configurations'],
         'every history of settings and uses of a generator, every problem and method',
         'The examples use one generator once per run; the solver repairs a wrong guess.',
         [GG, 'beluga/beluga.py'], [('generation', GG + ': auto, ones, static'),
                                    ('constants', GG + ': match_constants_to_states')],
         [('settings', 'last settings given', GG + ': setup')],
         ['guess received by the solver'],
         technique='TLA+ specification of generator and propagated guesses (exact polynomials obeying the problem\'s '
                   'equations, checked by TLC); instances TLC enumerates replayed through solve(), traces validated '
                   'by TLC',
         note='Three problems with polynomial extremals, both methods and control methods, histories of two settings '
              'used twice each, sampled evenly over kinds of settings. Trusts TLC and the harness.')
    prop('C21', 'Symplectic reduction gives an equivalent smaller problem and maps back exactly',
         'With reduction on, each state declared a symmetry of the problem, or whose costate is declared a constant of motion (nothing but the boundary terms depends on '
         'it) leaves the unknowns together with its costate: the costate becomes an unknown constant, the state a '
         'quadrature with the state\'s own rate, and the rest of the boundary value problem is the full one with '
         'these in their place, square, in any order of the symmetries. Carrying a trajectory into the reduced problem and '
         'back restores every state, costate, control and the cost. Without reduction the declarations change nothing.',
         ['inputs', 'configurations'], 'every problem with symmetries along states, every order of them',
         'Two examples use reduction; a wrong quadrature or constant of motion there only slows convergence or is '
         'never looked at after the inverse map.',
         [SYM, MAPS], [('reduction', SYM + ': MishchenkoFomenko'), ('mappers', MAPS + ': MF.map, MF.inv_map')],
         [], ['compiled functions handed to the solver', 'forward and inverse trajectory maps'],
         technique='TLA+ specification of the reduction as a rewriting of the derived boundary value problem (TLC checks '
                   'that it is closed and square); the reduced problems TLC derives are compared with the compiled '
                   'ones, traces validated by TLC',
         note='Symmetries along single states only (general fields are not supported by the code, see DESIGN.md); hand '
              'written and random problems, points and trajectories sampled. Trusts TLC and the harness.')
    prop('C22', 'Tables and custom functions mean what they were declared as, everywhere',
         'A table given by the user is the natural interpolating spline of its data (through every point, '
         'twice continuously differentiable, extended by its end pieces) with its exact derivatives, and a custom function is '
         'the user\'s function with its derivatives; every place a problem uses them (rates, costs, boundary terms, '
         'bounds, quantities, switches, nested, of composite, repeated or several arguments, in any derived equation '
         'with partial derivatives of any argument) evaluates to exactly that.',
         ['inputs', 'configurations'], 'every table, function, argument and place of use',
         'One example uses one table of one variable; no test compares a derivative of a table or a function.',
         [SYM, COMP], [('declaration', 'beluga/symbolic/data_classes/components_structures.py: tables, custom functions'),
                       ('compilation', COMP + ': module scope of the compiled functions')],
         [], ['compiled functions handed to the solver', 'values of tables'],
         technique='TLA+ specification of interpolating splines over the integers (TLC checks smoothness and '
                   'uniqueness) and of calls with partial derivatives in the derived equations; instances TLC enumerates '
                   'are evaluated on the code, traces validated by TLC',
         note='Tables of up to nine points with integer data; functions of one to three arguments. Derivatives of '
              'custom functions are finite differences, compared to 1e-4. Trusts TLC and the harness.')
    STO = 'beluga/utils/storage.py'
    prop('C19', 'What is loaded is exactly what was saved, whenever and wherever',
         'A saved file holds exactly the parts saved last under its name (solutions, problem, compiled problem), as '
         'they were at that moment: every array, constant, cost and flag of every solution, a problem that solves '
         'and a compiled problem that computes and maps like the original, custom functions and tables included, in '
         'this process or another one. Changing the saved objects or a loaded copy later affects neither the file nor '
         'other copies; saving again replaces the whole content; loading a missing file is an error and creates nothing. '
         'solve() saves its results when asked, under the name given or the default one, and nothing otherwise.',
         ['histories', 'inputs'], 'every history of saving, loading, solving and changing, every content',
         'One test saves one solution set and loads it once.',
         [STO, 'beluga/beluga.py'], [('storage', STO + ': save, load'), ('automatic saving', 'beluga/beluga.py: solve')],
         [('files', 'content of every file', STO)], ['value returned by load', 'files in the directory'],
         technique='TLA+ specification of files, live and loaded objects model checked by TLC; histories generated by '
                   'TLC (simulation) replayed on the code and read back in other processes, traces validated by TLC',
         note='Histories of twelve operations on three files. One problem, with a table and a custom function. Trusts TLC '
              'and the harness.')
    PRO = 'beluga/symbolic/data_classes/symbolic_problem.py'
    prop('C23', 'A problem is exactly what was declared on it, and solving never changes it',
         'The problem solved consists of exactly the accepted declarations, whatever their order (the last '
         'independent variable and cost terms count). A name can be declared once, as whatever kind; a second '
         'declaration of it, or an invalid one, is refused with an error and leaves no trace. Solving, successfully or '
         'not, changes nothing, so the object can be solved again or declared further; a copy is independent. A problem without '
         'states, or a penalized (secant) bound whose activator is not a constant, is refused when solving.',
         ['histories', 'inputs'], 'every sequence of declarations, copies and solves',
         'The tests declare each problem once, in one order, without mistakes.',
         [PRO, 'beluga/symbolic/data_classes/components_structures.py', 'beluga/beluga.py'],
         [('declarations', PRO + ': Problem'), ('copies before solving', 'beluga/beluga.py: solve')],
         [('declarations', 'accepted declarations', PRO)],
         ['exceptions raised by declarations and solving', 'compiled functions handed to the solver'],
         technique='TLA+ specification of problem objects model checked by TLC; histories of declarations generated by '
                   'TLC (simulation) replayed on the code, the compiled problems compared with those the '
                   'specification derives from the accepted declarations, traces validated by TLC',
         note='One problem of sixteen declarations in random orders with up to eight additional attempts, four final '
              'steps and copies. Known finding: copies share names. Trusts TLC and the harness.')
    ND = 'beluga/numeric/numerical_derivatives/'
    prop('C26', 'Numerical derivatives are the derivatives of the function',
         'Every numerical derivative offered (forward, backward and central differences of any order and accuracy, mixed '
         'orders over several arguments, derivatives over any grid of points, and complex-step derivatives), of plain '
         'or compiled functions, is the derivative of exactly the order asked with respect to exactly the arguments '
         'asked: exact, up to rounding, for polynomials up to the degree the accuracy promises, off by no more than '
         'a multiple of the step otherwise, looking only at the side of the point its name says. Impossible requests '
         '(unknown methods, too few points, orders of arguments the function does not have) are refused.',
         ['inputs', 'configurations'], 'every function, point, order, accuracy, method and step',
         'The tests compare a handful of first and second derivatives of one function at one point.',
         [ND], [('differences', ND + ': finite differences, complex step')],
         [], ['values of the derivative functions'],
         technique='TLA+ specification of difference formulas as exact fractions and of the derivatives of polynomials '
                   'and of functions with a kink (TLC checks exactness of the formulas); instances TLC enumerates are '
                   'evaluated on the code, traces validated by TLC',
         note='Grids of up to five or six points, orders up to four, up to three arguments, whole points and '
              'coefficients. Trusts TLC and the harness.')
    LOG = 'beluga/utils/logging.py'
    prop('C27', 'Messages go exactly where the last logging set-up says',
         'After any sequence of set-ups, each message of a level at or above the display level appears on the screen '
         'once and each one at or above the file level in the log file once, in order, unaltered, and no other message does; '
         'a log file is started anew by the first message for it after a set-up, and no file is written when none '
         'is asked for.',
         ['histories', 'inputs'], 'every sequence of set-ups and messages, every level',
         'The tests set logging up once and look at nothing.',
         [LOG], [('set-up', LOG + ': init_logging')],
         [('handlers', 'levels and file of the last set-up', LOG)], ['screen output', 'content of the log files'],
         technique='TLA+ specification of messages, screen and files model checked by TLC; histories generated by TLC '
                   '(exhaustive and simulation) replayed on the code, traces validated by TLC',
         note='Trusts TLC and the harness.')
    GEO = 'beluga/symbolic/differential_geometry/differential_geometry.py'
    prop('C28', 'Geometry helpers are exterior calculus',
         'The exterior derivative of a function or a one-form over any basis, the standard symplectic form, the test '
         'whether a form is symplectic and the Hamiltonian vector field of a function are the mathematical ones: the derivative '
         'of a derivative vanishes, exactly the square antisymmetric forms of even size pass the test, and the field satisfies '
         'the form\'s equation (Hamilton\'s equations for the standard form). The total derivative follows the dependent '
         'variables by the chain rule; the constant of motion of a declared symmetry field is the momentum along the '
         'field (Noether), declared constants of motion are kept as they are, and their bracket is their field.',
         ['inputs'], 'every function, form and basis', 'The tests evaluate one or two instances.',
         [GEO], [('calculus', GEO)], [], ['returned arrays of expressions'],
         technique='TLA+ specification of exterior calculus over polynomials (TLC checks d(df) = 0 and Hamilton\'s '
                   'equations, the chain rule and Noether\'s theorem); instances TLC enumerates are evaluated on the code, traces '
                   'validated by TLC',
         note='Dependent variables of the total derivative are functions of independent ones only. Degenerate antisymmetric forms are not judged. Polynomials of up to four variables at whole points. Trusts TLC '
              'and the harness.')
    BEL = 'beluga/beluga.py'
    prop('C29', 'solve() refuses impossible requests up front and solves exactly what is asked',
         'solve() refuses an impossible request (no processes, no problem, an unknown method, control method or method '
         'of a bound, a compiled problem without both of its maps) with an error before anything is solved or written; '
         'otherwise it solves the boundary value problem of the method named, in whatever spelling and by any of its '
         'names, and a compiled problem given instead is solved as it is, with the same result as when it was '
         'compiled. As many worker processes are used as asked for, and released. Solvers, guess generators '
         'and continuation steps made by name are of the kind named; unknown names are refused.',
         ['inputs', 'configurations', 'histories'], 'every request and history of requests',
         'The tests make valid requests only, each in its own spelling.',
         [BEL], [('dispatch', BEL + ': solve, bvp_algorithm, guess_generator, add_step')],
         [], ['exceptions', 'problem given to the solver', 'returned solution', 'files written'],
         technique='TLA+ specification of requests and their outcomes model checked by TLC; histories of requests '
                   'generated by TLC (simulation) replayed through solve(), traces validated by TLC',
         note='Histories of seven requests over two problems, the pool replaced by an in-process one. Trusts TLC and the harness.')
    JIT = 'beluga/numeric/compilation/jit.py'
    LOC = 'beluga/numeric/compilation/LocalCompiler.py'
    prop('C30', 'Compiled functions compute the formulas they were made from',
         'A function compiled from a formula (a single one, or tuples and lists of formulas, nested or not) returns the formula\'s value, in the '
         'formula\'s shape, at every point, real or complex where asked for, whether or not it can be translated to machine '
         'code and whichever way the symbols are grouped into numbers and arrays; functions the formula names are the ones '
         'known at the time of compilation (replaced ones where a replacement is given), and neither other compilations nor '
         'calls matter. With machine code the equations, controls and mappings of a problem are those of its declaration, '
         'as they are without.',
         ['inputs', 'configurations', 'histories'], 'every formula, signature and point, with and without machine code',
         'The tests compile a handful of formulas and rely on whole problems being solved.',
         [JIT, LOC], [('compilers', JIT), ('named functions', LOC), ('control selection',
          'beluga/numeric/compilation/component_compilation.py: compile_control')],
         [], ['values returned by compiled functions'],
         technique='TLA+ specification of formulas, signatures and named functions model checked by TLC; every case TLC emits '
                   'is compiled in every way, with and without machine code, and called, traces validated by TLC; problems '
                   'compiled to machine code are compared with the boundary value problem of the specification',
         note='Polynomials of up to six symbols at whole points. Trusts TLC and the harness.')
