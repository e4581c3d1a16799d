"""writes properties.jsonl (kept as a script so that the statements stay readable)"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': ' '.join(statement.split()),
              'quantifier': {'over': over.split(), 'text': ' '.join(text.split())},
              'why_tests_cant': ' '.join(why.split()),
              'anchors': {'files': files.split(), 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': list(observe),
                          'hook_needed': None}})


C = 'dream/compressible/'
prop('C01', 'Ideal-gas closure is exact for every set of known fields',
     '''For an ideal gas, whichever thermodynamic fields the user knows, every thermodynamic quantity the solver derives
     (density, pressure, temperature, inner energy, specific inner energy, speed of sound) equals the exact ideal-gas
     value for the current heat capacity ratio, a supplied field is handed back unchanged, and a quantity that the
     documented relations do not determine raises ValueError instead of yielding a wrong value or None. Later changes of
     the heat capacity ratio reach expressions that were built before.''',
     'inputs configurations', '''all presence patterns of the 14 flow quantities, all admissible values, all
     gamma > 1, both dimensions''', '''tests evaluate each relation at one hand-picked point (often with all inputs 1)
     and one gamma; they neither vary the set of known fields nor gamma''',
     C + 'eos.py ' + C + 'solver.py dream/config.py', [('IdealGas', C + 'eos.py'), ('equation', 'dream/config.py')],
     ['CompressibleFlowSolver.density/pressure/temperature/...'])
prop('C02', 'Velocity, momentum, energy and enthalpy relations are exact',
     '''Velocity, momentum, kinetic, total and specific energies and enthalpies derived from any set of known fields equal
     their definitions (total energy is inner plus kinetic energy, enthalpy is energy plus pressure, specific means per
     unit mass), a supplied field is handed back unchanged, and quantities that the documented relations do not determine
     raise ValueError. The local Mach and Reynolds numbers are |u|/c and rho|u|/mu.''',
     'inputs configurations', 'all presence patterns of the flow quantities, all admissible values, 2d and 3d',
     'tests evaluate one value per branch, mostly with equal inputs, and never combinations',
     C + 'solver.py dream/config.py', [('CompressibleFlowSolver', C + 'solver.py')], ['CompressibleFlowSolver.energy/...'])
prop('C03', 'Gradient relations are the exact derivatives of the value relations',
     '''Every gradient the solver derives (density, velocity, momentum, pressure, temperature, energies, enthalpy, strain
     rate) from any set of known fields and gradients equals the gradient of the corresponding quantity for every
     differentiable flow state; the strain rate is the deviatoric symmetric part of the velocity gradient. What is not
     determined raises ValueError.''',
     'inputs configurations', 'all presence patterns of fields and gradients, all smooth states, 2d and 3d',
     'tests check constant sample vectors, which cannot distinguish transposed or dropped product-rule terms in general',
     C + 'solver.py ' + C + 'eos.py', [('gradient relations', C + 'solver.py')], ['*_gradient'])
prop('C04', 'Convective and diffusive fluxes are those of Navier-Stokes',
     '''The convective flux of any state is (rho u, rho u x u + p I, rho H u), the diffusive flux is (0, tau, tau u - q)
     with tau = 2 mu/Re eps and q = -mu/(Re Pr) grad T at the reference Reynolds number of the scaling in use, and the
     pressure, drag and lift coefficients and the stress tensor are derived from those same stresses with the stated
     normalisation. Inviscid configurations have no viscous contribution.''',
     'inputs configurations', 'all states and gradients, all viscosity models and scalings, 2d and 3d',
     'tests have no flux test beyond shapes; numerical values at one constant state',
     C + 'solver.py ' + C + 'viscosity.py ' + C + 'scaling.py', [('get_convective_flux', C + 'solver.py'),
                                                                 ('get_diffusive_flux', C + 'solver.py')],
     ['get_convective_flux', 'get_diffusive_flux', 'drag_coefficient'])
prop('C05', 'Characteristic decomposition of the Euler equations is consistent',
     '''For every state and every unit direction, the transformation matrices between conservative, primitive and
     characteristic variables are mutually inverse and compose, they diagonalise the exact Jacobians of the convective
     flux with eigenvalues (u_n - c, u_n, ..., u_n + c), and characteristic variables and amplitudes are those of the same
     decomposition. The incoming and outgoing parts keep exactly the negative and positive eigenvalues, and sum to the
     whole, absolute takes moduli, and any other type is rejected.''',
     'inputs', 'all states with positive density and speed of sound, all unit vectors, all signs of the eigenvalues',
     'tests compare matrices at one state and axis aligned vectors, where wrong entries vanish',
     C + 'eos.py ' + C + 'solver.py', [('IdealGas matrices', C + 'eos.py')],
     ['conservative_from_characteristic', 'get_conservative_convective_jacobian', 'characteristic_velocities'])
prop('C06', 'Riemann solver stabilisation matrices match their definitions',
     '''For every state and unit normal each selectable Riemann solver yields its documented stabilisation matrix:
     Lax-Friedrich (|u_n|+c) I, Roe |A_n|, HLL max(u_n+c,0) I, HLLEM max(u_n+c,0) times P diag(1,theta,...,theta,1) P^-1
     with theta = max(|u_n|/(|u_n|+c), theta_0), Upwind A_n^+; every interface function of an unselected (abstract) solver
     refuses to yield a matrix.''',
     'inputs configurations', 'all states, normals, flow directions relative to the normal, theta_0, 2d (3d where defined)',
     'there is no test of the matrices at all; demos only run one solver in one flow regime',
     C + 'riemann_solver.py ' + C + 'eos.py ' + C + 'solver.py', [('RiemannSolver', C + 'riemann_solver.py')],
     ['get_convective_stabilisation_matrix'])
prop('C07', 'Scalings, farfield state and viscosity laws are mutually consistent',
     '''For every Mach number, direction and gamma the farfield state of each scaling is a consistent ideal-gas state with
     unit density whose Mach number is the configured one and whose velocity points along the direction, the reference
     Reynolds number reproduces the configured Reynolds number in the farfield, and Sutherland viscosity is one there and
     follows the Sutherland law with the dimensionful temperature elsewhere. Dimensionful states multiply each quantity
     by its reference value, user references override only what they name, and a direction of the wrong dimension or a
     non-positive Mach number in the aerodynamic scaling is rejected.''',
     'inputs configurations', 'all Mach/Reynolds numbers, gamma, directions (any length), scalings, viscosity models',
     'tests check one Mach number and axis-aligned directions',
     C + 'scaling.py ' + C + 'viscosity.py ' + C + 'solver.py', [('Scaling', C + 'scaling.py')],
     ['get_farfield_state', 'get_dimensionful_state', 'reference_reynolds_number', 'viscosity'])
prop('C08', 'Element residual is the conservative, consistent HDG form',
     '''For every Riemann solver, viscosity model and mixed method, the assembled interior residual is the weak form of the
     conservation law: the volume term pairs the exact flux with the test gradient, and the element-boundary term and the
     trace equation use one and the same numerical flux, which reduces to the physical flux when trace and trial agree, so
     that whatever leaves an element through an interior facet enters its neighbour. The trace equation is posed on all
     facets but those of the physical boundary and no term is missing, doubled or of the wrong sign.''',
     'inputs configurations', 'all states, test functions and normals; all configurations of the finite element method',
     'tests only build the spaces; no residual is ever inspected',
     C + 'formulations/conservative.py', [('add_convection_form', C + 'formulations/conservative.py'),
                                          ('add_diffusion_form', C + 'formulations/conservative.py')], ['blf'])
prop('C09', 'Every boundary condition imposes its documented residual on its own boundary',
     '''Each boundary condition the solver offers contributes a residual of the trace equation restricted to exactly the
     boundary it was assigned to, and that residual vanishes exactly for the trace states the condition prescribes
     (farfield characteristics, outflow pressure, wall slip or no-slip, wall temperature or zero heat flux, symmetry,
     relaxed characteristics) with incoming information from outside and outgoing information from inside. No condition
     that can be assigned is silently ignored and an unsupported one raises.''',
     'configurations inputs', 'all offered boundary conditions, options, assignments, states and normals',
     'tests never set up boundary residuals', C + 'formulations/conservative.py ' + C + 'config.py dream/mesh.py',
     [('add_boundary_conditions', C + 'formulations/conservative.py')], ['blf'])
prop('C10', 'Every domain condition takes effect on its own subdomain only',
     '''Sponge layers, polynomial-order sponges, initial values and grid deformation assigned to subdomains take effect
     there, with the documented term and sign, and contribute nothing elsewhere; a mesh without such conditions is
     unaffected, and without an initial state none is imposed. Condition types without an implementation in the
     compressible solver are refused, none is silently ignored.''',
     'configurations inputs', 'all offered domain conditions and assignments, several at once',
     'tests cover one condition at a time on a unit square',
     C + 'formulations/conservative.py dream/mesh.py', [('add_domain_conditions', C + 'formulations/conservative.py'),
                                                        ('DomainConditions', 'dream/mesh.py')], ['blf', 'lf', 'gfu'])
prop('C11', 'Mixed strain-heat variables solve for the exact strain rate and heat flux',
     '''With the strain-heat mixed method the extra equations define, for any velocity and temperature trace, the
     deviatoric strain rate and the Fourier heat flux in weak form (volume term by parts plus trace term), and the stored
     symmetric components are read back at the same tensor position everywhere they are used (fluxes, boundary
     conditions, output).''',
     'inputs configurations', 'all states, 2d and 3d, all consumers of the mixed variables',
     'tests only check the component count', C + 'formulations/conservative.py dream/bla.py',
     [('StrainHeat', C + 'formulations/conservative.py')], ['blf'])
prop('C12', 'Time schemes discretise the time derivative exactly as documented',
     '''For every time-dependent variable the implicit Euler scheme contributes (u^{n+1}-u^n)/dt and BDF2 contributes
     (3u^{n+1}-4u^n+u^{n-1})/(2dt), tested with that variable's test function, with time levels shifted exactly once per
     accepted step, oldest first, all initialised with the initial state, and the time step being the live time step.
     Pseudo time stepping grows the step by the configured factor every configured number of iterations up to the maximum
     and never beyond.''',
     'histories inputs', 'all step counts, variables, time steps and growth settings',
     'tests do not run the schemes', 'dream/time.py dream/solver.py', [('TimeSchemes', 'dream/time.py')], ['blf', 'gfus'])
prop('C13', 'The nonlinear solver applies full Newton steps and stops as documented',
     '''In each Newton iteration the residual is that of the current iterate minus the linear form, the Jacobian is
     assembled at the same iterate, and the solution moves by minus the damping factor times the solution of the
     linearised system, with static condensation using the matching harmonic extensions and inner solve. Iteration ends
     when the error falls below the convergence criterion, when it is not a number, or after the maximum number of
     iterations, and converged is reported only in the first case.''',
     'histories configurations', 'all residual histories, iteration limits, damping factors, condensation on or off',
     'tests solve no system', 'dream/solver.py', [('NonlinearSolver', 'dream/solver.py')], ['gfu', 'is_converged'])
prop('C14', 'A run performs its phases in the documented order and always closes',
     '''Initialisation builds spaces, trial functions, grid functions, conditions, time scheme and forms in dependency
     order, a run opens its outputs, stores the initial state, then per time step solves, shifts time levels and stores,
     then stores the final state, the live time being that of the state at hand throughout, and closes the outputs on every exit, whether the loop completes, fails or is
     abandoned by the caller. Stationary and pseudo-time runs can be started from their public entry points, and solving without reassembly keeps the assembled forms.''',
     'histories fault_sequences', 'all exits of the run routines; all time routines; all numbers of steps',
     'tests never run a routine to completion or failure', 'dream/time.py dream/solver.py dream/io.py',
     [('start_solution_routine', 'dream/time.py'), ('IOConfiguration', 'dream/io.py')], ['io', 'gfu'])
prop('C15', 'Output is written at the configured rate and the final state is never lost',
     '''Every enabled stream (gridfunction, vtk, sensors, ...) stores exactly at the steps its own rate selects, labelled
     with the time of that step (time levels at least at their own rate), and stores the final state exactly once at the end when the loop did not; streams that are not enabled
     write nothing and enabling one stream does not disable another. A further solve with the same solver, whether the
     one before it was completed, abandoned or failed, writes what a first one with the present configuration writes.''',
     'histories configurations', 'all rates, step counts and combinations of streams',
     'tests cover rate 5 with one sensor', 'dream/io.py dream/time.py', [('stream', 'dream/io.py')], ['files'])
prop('C16', 'What was saved can be loaded again under the same name and time',
     '''Loading a gridfunction, settings, mesh or transient routine looks for exactly the file the corresponding save wrote
     for the same name, time and time level, restores it into the same component, and a transient load visits the times at
     which states were saved, in order. A missing file is reported,
     not skipped. A folder is where it was last put, and those given relative to the root move along with it; sensors
     stored and loaded again measure the same.''',
     'histories inputs', 'all names, times, rates, time levels and variables',
     'tests round-trip one gridfunction', 'dream/io.py dream/time.py', [('GridfunctionStream', 'dream/io.py')], ['files'])
prop('C17', 'Sensor tables have one column per value and the values of that column',
     '''Every sensor writes as many columns as its header announces, each row holding time and the values of the named
     fields, components and points or regions in header order, for scalar, vector and matrix fields and for point, region
     and L2 sensors alike: the point value, the integral over exactly that region, or the root of the integral of the
     square. Sensors chosen one after the other, by name
     or in dictionaries, are all in force. Regions the mesh does not have are left out, and sensors without fields or sharing a name are refused. A table
     loaded as a dataframe has all its rows, below exactly its header.''',
     'inputs configurations', 'all field shapes, sets of points and regions, sensor types',
     'tests check single scalar and vector fields', 'dream/io.py', [('Sensor', 'dream/io.py')], ['csv'])
prop('C18', 'Rejected settings raise and leave the configuration unchanged',
     '''Whenever a single setting is rejected (out of range, wrong type, unknown option) the error is raised before anything
     is stored, so the previous value and everything else in the configuration stay in effect (apart from the process-wide
     logger), however the setting is passed (attribute, key, update with keyword, dotted or nested keys, dictionary on the
     parent); every accepted value is stored after conversion to its documented type and read back as such. Documented
     range limits are enforced for every value, and reading a setting without which a condition is meaningless (fields,
     target) raises while it is unset.''',
     'inputs histories', 'all settings with validation, all values, after any history',
     'tests try one bad value for a few settings and rarely look at the state afterwards',
     'dream/config.py dream/time.py dream/solver.py dream/io.py dream/compressible/solver.py',
     [('configuration.__set__', 'dream/config.py')], ['attributes'])
prop('C19', 'Nested configurations share the root configuration and mesh',
     '''Every nested configuration object reachable from a solver, including those created by selecting an option by name,
     with an instance (new, with its own nested settings, or taken from another solver), by switching a stream on, by
     updates or by clearing, refers to that solver as its root and uses the mesh of that solver, and selecting another
     option keeps this so; sensors join when their stream is opened. This holds to any depth of
     nesting, and for options the user defines.''',
     'histories configurations', 'all interfaces and option selections in any order',
     'tests use toy configurations', 'dream/config.py', [('UniqueConfiguration', 'dream/config.py')], ['cfg', 'mesh'])
prop('C20', 'Saving settings and applying them to a fresh solver reproduces them',
     '''The tree of settings exported from any solver configuration names every readable setting with its plain value and
     can be applied to a fresh configuration, where it yields the same selected options, active streams and values;
     updates with dotted or nested keys, in any order, mean the same as setting the attributes one by one with options
     first, the keywords of a condition take effect in any order as well, unknown keys change nothing, and the dictionary passed is left as it was.''',
     'configurations histories', 'all settings of all selectable options',
     'tests round-trip a toy configuration', 'dream/config.py dream/io.py', [('to_tree', 'dream/config.py'),
                                                                           ('update', 'dream/config.py')], ['cfg'])
prop('C21', 'Every selectable option is reachable by each of its names and unambiguous',
     '''Each option of each interface can be selected by its name and all its aliases, whatever was selected before and
     however it is passed, and by instance, and exactly that class is in place afterwards; no two options of an interface share a name, an option
     derived from another one is told apart from it, defining a duplicate (in any spelling, as name or alias) is refused, and an unknown name is rejected
     with the alternatives listed and nothing changed.''',
     'configurations', 'all interfaces and options, all names', 'tests select a handful of names on toy classes',
     'dream/config.py dream/compressible dream/time.py dream/solver.py', [('InterfaceTree', 'dream/config.py')],
     ['interface attributes'])
prop('C22', 'Condition assignments reach exactly the named regions and none is lost',
     '''A condition assigned to a pattern or list of regions is in force on exactly the mesh regions named, several
     conditions on one region are all kept in order of assignment, unknown region names are reported and unknown options
     refused, and queries (has, get, pattern, regions, periodic and domain boundaries) reflect exactly the assignments
     made, each condition once with the pattern of its regions, on boundaries and domains alike, until they are cleared;
     a condition knows the mesh of the solver it was last assigned to.''',
     'configurations histories', 'all patterns, orders and overlaps of assignments',
     'tests assign to distinct regions', 'dream/mesh.py', [('Conditions', 'dream/mesh.py')], ['bcs', 'dcs'])
prop('C23', 'Layer coordinates, sponge weights and grid maps meet their end values',
     '''Buffer coordinates (Cartesian, polar, spherical, shifted, running either way) stay clamped to the layer and
     normalised coordinates run from 0 at its start to 1 at its end; sponge functions have their documented profile, zero up
     to the start and the full weight from the end on; every grid mapping leaves the start of the layer fixed and scales its
     length by the scale (in the limit of its fixpoint iteration, smoothly at the start for the exponential and tangential
     ones), scales not above one and plain coordinates are refused, a radial mapping moves points along the radius, and a
     grid deformation has, in any order of setting, one component per dimension: that of the mapping in force, else none.''',
     'inputs', 'all start/end values, orders, weights, dimensions and points',
     'tests evaluate a few points of one configuration', 'dream/mesh.py', [('BufferCoord', 'dream/mesh.py'),
                                                                         ('SpongeFunction', 'dream/mesh.py'),
                                                                         ('GridMapping', 'dream/mesh.py')], ['CF values'])
prop('C24', 'Tensor primitives compute what their names say for every shape',
     '''The vector and matrix helpers (absolute value, minimum, maximum, interval, trace, diagonal, unit vector, inner,
     outer, symmetric and skew matrices, fixpoint iteration) agree with their mathematical definition for numbers and
     fields of every sign and admissible shape and refuse inadmissible shapes.''',
     'inputs', 'all scalars, vectors and matrices of dimensions 1 to 3, all signs and orderings',
     'tests sample single values', 'dream/bla.py', [('bla', 'dream/bla.py')], ['return values'])
prop('C25', 'Solver instances are isolated from each other',
     '''Nothing done to one solver configuration (setting values, selecting options, adding conditions, fields or sensors,
     setting parameters) changes another one, on the same or another mesh, or the defaults of configurations created
     later, and two of them never hold a common mutable object, apart from the process-wide logger, the mesh and the info, states of domain conditions, conditions and sensors that the user puts into both; parameters and the fields of boundary conditions, sensors and outputs are copied even then, whether given to both or read from one and given to the other.''',
     'histories', 'all operations on any number of live configurations', 'tests create one configuration each',
     'dream/config.py dream/mesh.py dream/io.py', [('default handling', 'dream/config.py')], ['attributes'])
prop('C26', 'Flow field containers treat symbols and names as one key',
     '''In flow field containers, derived ones included, a quantity set by symbol, by attribute or by full name is one and the same entry, readable
     as attribute and by full name, absent quantities read as None, assigning None changes nothing, values are converted to
     coefficient functions once, every symbol denotes a different quantity, and containers never share entries.''',
     'histories inputs', 'all quantities, ways of setting, orders', 'tests set a few quantities',
     'dream/config.py dream/compressible/config.py', [('ngsdict', 'dream/config.py'), ('quantity', 'dream/config.py')],
     ['fields'])
prop('C27', 'Dimensions without an implementation are refused',
     '''Formulas that exist only in two dimensions (transformations between variables, Jacobians, characteristic
     quantities, the strain-heat formulation, polynomial sponges) raise NotImplementedError or ValueError in every other
     dimension and for every set of known fields, rather than returning a value of another size, None or an exception
     object; where a value is returned it has the size of the dimension and is the exact one.''',
     'inputs configurations', 'all dimension-dependent functions, dimensions 1 to 3',
     'tests only use 2d states', C + 'eos.py ' + C + 'formulations/conservative.py', [('IdealGas', C + 'eos.py')],
     ['raised exceptions'])
prop('C28', 'Files and log handlers opened for a run are released',
     '''Every file that a run opens is closed again on every exit, also when opening, saving or solving fails or the caller
     abandons the run, and the run can be repeated with all its outputs. Switching the log to terminal or file on attaches
     exactly one handler with the format of the current level, switching it off or discarding the log detaches and closes
     it, changing the level reaches the handlers in force, and runs never add handlers.''',
     'fault_sequences histories', 'all streams and sensors, failures at any save, repeated runs',
     'tests open and close once', 'dream/io.py', [('IOConfiguration', 'dream/io.py')], ['handles'])
prop('C29', 'The timer visits exactly the times of the interval',
     '''For every interval that is a whole number of (strided) steps long the timer yields start + i*step for all i from
     the configured start (which is left out unless asked for) to the end, distinct and increasing, with the live time
     equal to the value yielded up to the rounding of its label; an interval that does not run forward from a
     non-negative start is rejected and the previous one stays in effect.''',
     'inputs', 'all intervals, steps and strides', 'tests use a few decimal intervals starting at 0',
     'dream/time.py', [('Timer', 'dream/time.py')], ['Timer.start'])
prop('C30', 'Parameters are live: setting one updates expressions already built',
     '''Setting a physical parameter (Mach, Reynolds, Prandtl number, heat capacity ratio, time, time step), by attribute,
     key or update, as a number or a parameter, updates the object that previously built expressions refer to, which reads
     back the new value, so an assembled form always uses the current value; formulas, farfield states and forms never
     freeze the value at build time.''',
     'histories', 'all parameters, before and after building forms', 'tests set parameters before use',
     'dream/config.py ' + C + 'solver.py dream/time.py', [('parameter', 'dream/config.py')], ['ngs.Parameter'])
prop('C31', 'The spaces and orders follow the configuration',
     '''The finite element spaces are built with the configured order, method, bonus integration order and static
     condensation, span every subdomain, carry periodicity when periodic boundaries are set, and polynomial-order sponges
     lower the order of exactly the elements and facets of their subdomain to the value the sponge prescribes, never below
     its low order. The proposed cascade of orders for a row of such sponges steps from the highest order down to the lowest
     and ends there, and a periodic mesh whose boundaries carry no periodic condition is refused.''',
     'configurations', 'all orders, methods, mixed methods, meshes and psponge settings',
     'tests check dimensions of spaces for a few settings', C + 'formulations/conservative.py dream/mesh.py dream/solver.py',
     [('get_fespace', C + 'formulations/conservative.py')], ['fespaces'])
prop('C32', 'Fields handed out for output are exact functions of the stored solution',
     '''The fields a solver hands out for output, drawing and sensors (get_fields) are the exact functions of its stored
     solution, whatever the dimension, gas, viscosity law and mixed method: density, velocity, pressure and temperature
     unless switched off by their symbol, and every requested quantity or gradient the method provides, by symbol or full
     name, with strain rate and temperature gradient read from the mixed variables where they are solved for. A quantity
     that is not available is left out and reported, one that is available is not, and asking for fields changes neither the
     solution nor containers handed out before.''',
     'inputs configurations', 'all flow states and all requests', 'no test evaluates the fields of a stored solution',
     C + 'formulations/conservative.py dream/solver.py',
     [('ConservativeFiniteElementMethod.get_fields', C + 'formulations/conservative.py'),
      ('get_conservative_gradient_fields', C + 'formulations/conservative.py')], ['get_fields', 'get_conservative_fields'])
prop('C33', 'User-defined options take effect and what they leave out is refused',
     '''A user extends the solver by subclassing an interface (equation of state, viscosity, scaling, Riemann solver, mixed
     method, time routine, time scheme, linear and nonlinear solver, finite element method) under a new name. Once selected
     by that name, every relation the solver offers is the one the option defines, called with the caller's arguments and
     not replaced by a built-in one; fluxes, farfield states and forms use it; the unknowns, forms, loads and time
     derivatives a user's finite element method adds enter the assembled system next to the inherited ones; an option with the
     content of a built-in one under a name of its own, derived from it or not, makes the same solver; and a function the interface requires but the
     option does not define raises NotImplementedError instead of contributing nothing.''',
     'inputs configurations', 'all interfaces and all their required functions', 'tests define one such option at most',
     'dream/config.py ' + C + 'eos.py ' + C + 'solver.py dream/time.py dream/solver.py',
     [('EquationOfState', C + 'eos.py'), ('Interface', 'dream/config.py')], ['NotImplementedError'])
prop('C34', 'Drawn scenes follow the solution',
     '''Drawing fields opens one scene per field, under its name, on the mesh of the solver and with the options given; a
     second drawing replaces the first. Redrawing refreshes every open scene once and the window once, does nothing when
     nothing was drawn, and time-dependent runs and loads of transient results refresh the scenes after every step.''',
     'histories', 'all sequences of drawings and runs', 'tests have no window', 'dream/io.py dream/time.py',
     [('IOConfiguration.draw', 'dream/io.py')], ['redraw'])
prop('C35', 'Untouched and cleared configurations are the documented default',
     '''A solver on which nothing was set is inviscid ideal gas (gamma 1.4) in aerodynamic scaling at Mach 0.3 with the
     Lax-Friedrich flux, conservative HDG of order 2 without mixed variables, stationary, Newton with Umfpack (undamped, at
     most 10 iterations, criterion 1e-8); Reynolds 150, Prandtl 0.72, the Sutherland constants of air and the dimensionful
     values of the documentation apply where they are asked for; implicit Euler on (0, 1) with step 1e-4; only the log
     stream is on; conditions start at their documented values (relaxation 0.28, target farfield, identity Jacobian), or
     refuse to be read where a value must be given. Setting a default value explicitly, in any spelling, changes nothing,
     and clear() on a configuration or one of its parts returns exactly that part to this state, whatever was set
     before; likewise a setting assigned again holds what assigning it directly would have given.''',
     'configurations', 'all settings, spellings and histories of settings', 'tests pin a few defaults of single classes',
     'dream/config.py ' + C + 'solver.py ' + C + 'config.py dream/time.py dream/io.py dream/solver.py dream/mesh.py',
     [('UniqueConfiguration.clear', 'dream/config.py'), ('configuration.reset', 'dream/config.py')], ['ValueError'])
prop('C36', 'Initialising again describes only the present configuration',
     '''However a solver was configured, initialised, assembled or solved before, after changing settings or conditions and
     initialising again its spaces, unknowns, time levels, weak forms and initial state are those of a new solver with the
     present settings: removed conditions leave no term, replaced ones no trace of the old state, boundary masks follow the
     present conditions, and a following solution works only on operators and vectors of the present initialisation, for as
     many time levels as a new solver. Initialising, assembling, solving and asking for fields themselves leave every setting
     and the data of every condition as they were set, apart from the time and the pseudo time step.''',
     'configurations histories', 'all sequences of configurations and stages (initialised, assembled, solved)',
     'tests initialise each solver once', 'dream/solver.py dream/time.py ' + C + 'formulations/conservative.py',
     [('SolverConfiguration.initialize', 'dream/solver.py'), ('TimeSchemes.initialize', 'dream/time.py'),
      ('HDG', C + 'formulations/conservative.py')], ['gfu', 'blf'])
# ----- recorded, not claimed
prop('C37', 'The ring mesh covers the ring once with the requested layers and names',
     '''The ring mesh around a cylinder has n_radial layers of n_polar points, evenly spread in angle, at radii from ri to ro
     graded by (j/n_radial)^geom. Its triangles cover the ring exactly once: interior edges belong to two triangles with
     opposite directions, all areas are positive (for layers thick enough for their number of points), and the edges
     belonging to one triangle are exactly the boundary edges, each once, lying on the cylinder of its radius; inner edges
     carry the first name, outer edges of the left half the second, those of the right half the third. Numbers of elements
     that admit no such mesh, a negative boundary layer thickness and a sponge smaller than the farfield raise
     ValueError.''',
     'inputs', 'all accepted numbers of elements up to 28 x 14, all radii, gradings and names',
     'no test inspects a generated ring', 'dream/mesh.py', [('get_cylinder_omesh', 'dream/mesh.py')], ['get_cylinder_omesh'])
prop('C38', 'The shipped examples set up and run the solver they state',
     '''Every program under examples/, for every choice of the switches it offers, runs without error up to its
     postprocessing: every name and value it assigns is in force afterwards, whatever it assigns before or after, every
     boundary and subdomain of its mesh has exactly one condition, initialising succeeds with the states it computes from
     the solver's parameters and farfield state, all steps are solved, the fields it draws appear under the names it gives
     and are redrawn while it runs, and the pictures and measurements it asks for (and no others) are written.''',
     'configurations', 'all examples and choices of their switches', 'tests run no example',
     C + 'solver.py dream/config.py dream/io.py dream/solver.py dream/time.py dream/mesh.py',
     [('CompressibleFlowSolver', C + 'solver.py'), ('IOConfiguration', 'dream/io.py')], ['return values'])
prop('C90', 'Meshes generated by a geometry kernel resolve the requested geometry',
     '''Mesh generators that leave meshing to netgen's geometry kernel return valid meshes whose boundaries, materials, periodic identifications and element sizes are
     those requested.''', 'inputs', 'all geometry parameters', 'tests generate one mesh each', 'dream/mesh.py',
     [('get_*_mesh', 'dream/mesh.py')])
prop('C91', 'Newton iteration converges for well-posed flow problems',
     '''For admissible initial states and sufficiently small steps the nonlinear iteration reaches the convergence
     criterion.''', 'inputs histories', 'all admissible flows', 'no test solves a flow', 'dream/solver.py',
     [('NonlinearSolver.solve', 'dream/solver.py')])
prop('C92', 'Discrete solutions converge at the design order',
     '''Refining mesh or order reduces the error of smooth solutions at the design rate, and discrete mass, momentum and
     energy are conserved to round-off.''', 'inputs', 'all smooth flows', 'no test computes errors',
     C + 'formulations/conservative.py', [('HDG', C + 'formulations/conservative.py')])
prop('C93', 'Static condensation does not change the solution',
     '''Solving with and without static condensation gives the same update up to round-off.''', 'configurations inputs',
     'all problems', 'no test solves', 'dream/solver.py', [('DirectNonlinearSolver', 'dream/solver.py')])

out = Path(__file__).resolve().parents[1] / 'properties.jsonl'
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
