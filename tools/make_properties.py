import json
P=[]
def p(id,title,statement,over,text,why,files,state,mech,obs,hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
G='qcd-sme/src/consts.rs'; QG='qcd-sme/src/qcd/gluon.rs'; QT='qcd-sme/src/qcd/thermal.rs'; YT='qcd-sme/src/ym/thermal.rs'; TY='qcd-sme/src/qcd/types.rs'
LT='qcd-sme/src/low_level/oneloop/thermal/gluon.rs'
p('C01','Global settings are independent last-write-wins registers',
 "After any sequence of calls to the setters of the number of colors, the number of fermions, the default quark mass, the default integration tolerance, the default iteration limit and the Matsubara regulator, made from Rust or through the C interface, on whatever threads of the process, one after the other, every getter returns exactly the value last accepted for its own setting (3, 1, 0.5, 1E-10, 50 and 1E-5 if never set), and the default integration method is the 7-15 Gauss-Kronrod rule with the current tolerance and iteration limit. A tolerance or a regulator that is zero, negative or NaN is rejected with a panic (or abort) and changes no setting; every other value is accepted.",
 ['histories','inputs'],'every history of setter calls (accepted and rejected, repeated values, every order) and every value',
 'The unit tests never call a setter and read all the getters back; they run one setting in isolation and only at its default.',
 [G],[('registers','the six process-wide settings and the cached nf/nc ratio',G)],[('setter/getter pairs',G),('assert!(tol > 0.) / assert!(reg > 0.)',G)],['getters from Rust','getters of the C library'])
p('C02','Results reflect the current colors and flavors, whatever happened before',
 "Every function that takes the number of colors and flavors from the global settings returns a value that depends only on its arguments and on the settings at the time of the call: the inverse gluon dressing is the pure Yang-Mills one plus nf/nc times the vacuum quark loop and nf/nc times the thermal quark loop, the pure Yang-Mills, ghost and nf = 0 results do not depend on nc and nf, and charge densities are proportional to nc. Earlier calls, earlier settings and the order of the setter calls never matter, and evaluating a function never changes a setting.",
 ['histories','inputs','configurations'],'every history of setter calls and evaluations, every nc > 0 and nf, every argument in the physical domain',
 'The tests keep nc = 3 and a handful of nf fixed for a whole run, evaluate each function once per process state, and never revisit a setting after using another.',
 [G,QG,QT,LT],[('NC, NF, nf/nc','settings read implicitly by the computations',G)],[('nf_div_nc() in the vacuum part',QG),('nf() in front of and 1/nc() inside the thermal quark part',QT+', '+LT)],['return values of the global-settings functions','getters after each call'])
p('C03','Field-configuration results do not depend on the global settings',
 "A function that takes a field configuration returns a value determined by that configuration and its arguments alone: changing the global number of colors, number of fermions or default quark mass before the call, between calls, or from another thread while the call is running, never changes the result.",
 ['schedules','histories','configurations'],'every interleaving of setter calls with evaluations, sequential or concurrent, and every field configuration',
 'The tests evaluate field-configuration functions in one thread with the global settings already equal to those of the configuration.',
 [TY,QG,QT,LT],[('FieldConfig','number of colors, gluon mass, list of (flavors, mass)',TY)],[('*_w_field_config functions read the configuration',QG+', '+QT)],['return values under changing settings'])
p('C04','A field configuration is a value and its quarks contribute additively',
 "The inverse gluon dressing for a field configuration is the pure Yang-Mills one at the configuration's gluon mass plus, for every entry of its quark list, (flavors)/(colors) times that entry's single-flavor contribution; hence reordering entries, splitting or merging entries of equal mass, and adding or removing entries with zero flavors change nothing, and one-entry configurations agree with the global-settings functions at the same nc, nf and mass. A configuration is a plain value: the result always reflects the current content of its public fields, however they were reached (constructor, assignment, clone), and no evaluation and no change to another configuration or to a clone alters it.",
 ['histories','inputs','configurations'],'every configuration (any number of entries, equal masses, zero flavors, any nc) reached by any history of construction, cloning and field assignment',
 'The tests use a few fixed lists, all built by the constructor and never modified, cloned, permuted or split.',
 [TY,QG,QT],[('FieldConfig','public fields nc, gluon, quarks',TY)],[('sum over the quark entries',QG+', '+QT)],['return values','public fields after each call'])
p('C05','Dressing functions and propagators are derived consistently in every regime',
 "For every correlator family (ghost or gluon; pure Yang-Mills, QCD or field configuration; vacuum, crossed vacuum, or thermal at general, vanishing-frequency or vanishing-momentum kinematics; longitudinal or transverse; finite or zero temperature; Landau or general gauge), the dressing function is the reciprocal of the inverse dressing function and the propagator is the dressing function divided by the squared Euclidean momentum of that regime. The Landau-gauge functions are the general-gauge ones at zero gauge parameter, the plain and the pre-computed-logarithm forms agree, and real arguments give the same as complex arguments with zero imaginary part.",
 ['inputs','configurations'],'every function family, every real or complex argument in the domain',
 'Most thermal propagators, all of the field-configuration thermal variants and the ghost family are compared with stored numbers at a few points or not at all.',
 [QG,'qcd-sme/src/qcd/ghost.rs',QT,'qcd-sme/src/ym/gluon.rs','qcd-sme/src/ym/ghost.rs',YT],[],[('dressing = inv(dressing_inv), propagator = dressing/s',QG+', '+QT)],['return values of whole families at the same point'])
p('C06','The foreign-language interface computes what the native one does',
 "Every function exported to C (and, through the generated header, to Cython/Python) takes its arguments in the order the generated header declares and returns the value of the native function of the same name for the same arguments, in its real and in its complex variant. It shares the global settings with the native interface: a setting changed through either is seen by both. The headers generated for C, C++ and Cython declare the same functions, and the functions of the Cython module return what the native functions of their names return.",
 ['inputs','histories'],'every exported symbol, every argument, every mix of native and foreign calls',
 'No test goes through an exported symbol with independent arguments, and nothing exercises the two interfaces in the same process history.',
 ['qcd-sme/src/ffi.rs','qcd-sme/src/low_level/oneloop/thermal/mod.rs',QG,G,'qcd-sme/build.rs','python/pyqcd_sme_so.pyx'],[('registers','shared between the interfaces',G)],[('ffi modules with one wrapper per exported symbol','qcd-sme/src/**/ffi')],['symbols of the shared library','generated C header'])
p('C07','Root search returns only certified roots and follows the secant iteration',
 "For every function and every pair of distinct guesses, the root search either returns a point together with the value of the function at that very point, whose modulus is below the tolerance, or reports failure; with an iteration limit of n it evaluates the function at most n + 2 times, never reports success when the limit is zero, and never reports success on a NaN. It follows the secant iteration from the given guesses and returns the first iterate (starting with the second guess) whose value is below the tolerance; equal guesses and non-positive tolerances are rejected.",
 ['inputs','programs'],'every function (including ones with flat pieces, poles and NaN values), guesses, tolerance and iteration limit, real and complex',
 'The search is exercised only inside the chemical-potential test, on one smooth monotone function.',
 ['qcd-sme/src/utils.rs'],[],[('secant loop','qcd-sme/src/utils.rs')],['returned pair','sequence of points at which the function is called'])
p('C08','Residues and spectral functions match their definitions',
 "For every function f, point z and step eps, the numerical residue is 2 eps / (1/f(z+eps) - 1/f(z-eps)) and the spectral function is i [f(z + i eps) - f(z - i eps)] / 2 pi, with eps = 1E-12 when none is given; in particular a simple pole with a linear reciprocal gives its residue exactly at any step, a function continuous across the point has a spectral function that vanishes with eps, and the spectral function of a real-analytic function on the real axis is real. Each evaluates the function only at those two points.",
 ['inputs','programs'],'every function, point and step',
 'No test calls these functions.',
 ['qcd-sme/src/utils.rs'],[],[('compute_residue*, spectral_function*','qcd-sme/src/utils.rs')],['returned value','points at which the function is called'])
p('C09','Charge density and chemical potential are inverse, odd and monotonic',
 "At fixed mass and temperature (finite or zero) the quark charge density is odd in the chemical potential, vanishes at zero, is non-decreasing in it and proportional to the number of colors, and the finite-temperature density tends to the zero-temperature one, nc (mu^2-m^2)^(3/2)/(3 pi^2) above the mass and zero below, from above as the temperature vanishes; it does not depend on the sign of the mass and, in modulus, increases neither with the mass nor with the inverse temperature. The chemical potential is odd in the density, zero at zero density, and the density evaluated at the returned chemical potential reproduces the requested density within the integration tolerance (to rounding at zero temperature); it is found without failing for any mass up to 10, inverse temperature between 0.01 and 300 and density up to 1000 in modulus.",
 ['inputs','histories'],'every mass, temperature, chemical potential or density in the stated domain, every nc',
 'The test inverts nine points at high temperature with one mass and nc = 3.',
 [QT,'qcd-sme/src/utils.rs'],[],[('charge_density*, chemical_potential*',QT)],['return values'])
p('C10','Integration settings take effect exactly where documented',
 "Every thermal function without an explicit integration method gives the result of its counterpart with an explicit method, called with the current default method; the zero-Matsubara-frequency gluon functions use a tolerance of 1E-8 instead of the default one as long as the default tolerance and iteration limit both have their initial values, and the user's values otherwise. The zero-Matsubara-frequency functions evaluate at the current Matsubara regulator, and an explicit method is honored irrespective of the global defaults.",
 ['histories','configurations','inputs'],'every history of changes to tolerance, iteration limit and regulator; every method; every thermal function',
 'The tests never change the tolerance, the iteration limit or the regulator before evaluating a function.',
 [G,LT,'qcd-sme/src/low_level/oneloop/thermal/ghost.rs',QT],[('tolerance, iteration limit, regulator','defaults for the thermal integrals',G)],[('get_default_integration_method, DEFAULT_TOL_INT_REPL, matsubara_reg',LT)],['return values'])
p('C11','Kinematic and thermodynamic limits agree with the dedicated functions',
 "The general thermal functions tend to the vanishing-frequency functions as the frequency goes to zero, to the vanishing-momentum functions as the momentum goes to zero, to the zero-temperature functions as the temperature goes to zero, and to the vacuum functions when in addition the chemical potential is below every quark mass; the QCD functions reduce to the pure Yang-Mills ones at zero flavors. Longitudinal and transverse functions coincide at vanishing momentum, all up to the accuracy of the default quadrature.",
 ['inputs','configurations'],'every correlator of every family and every order in which the limits are taken',
 'The limit tests cover the general-kinematics propagators only, for a few points, and none of the vanishing-frequency, vanishing-momentum or field-configuration variants.',
 [QT,YT,LT],[],[('one module per regime',QT)],['return values along a limit'])
p('C12','Correlators respect the symmetries of the theory',
 "Every thermal and vacuum correlator, and every one-loop integrand other than the bare logarithms, is unchanged under reversing the sign of the frequency, of the spatial momentum, of any mass parameter or of the chemical potential, and goes to its complex conjugate when the frequency (or squared momentum) is conjugated; bare thermal logarithms are odd in the momentum and even in the frequency up to conjugation, and massive integrals are symmetric under exchanging their two masses.",
 ['inputs'],'every function, every composition of the symmetry operations, every argument in the domain away from branch cuts',
 'All the tests use positive frequencies, momenta, masses and chemical potentials.',
 [QT,YT,LT,'qcd-sme/src/low_level/oneloop/thermal/mod.rs'],[],[('closed-form integrands','qcd-sme/src/low_level/oneloop/thermal')],['return values'])
p('C13','Statistical distributions obey their defining identities',
 "The Fermi and Bose distributions satisfy the particle-hole and detailed-balance identities f(e,mu) + f(-e,-mu) = 1 and b(e,mu) + b(-e,-mu) = -1, 1/f - 1/b = 2, shift invariance in e - mu, scaling invariance in (beta e, beta mu), and 0 <= f <= 1 with f non-increasing in the energy; the two-sided distribution is the sum over both signs of the chemical potential, the zero-chemical-potential forms equal the general ones at mu = 0, and the zero-temperature forms are the step functions (with value one at e = mu) approached as beta grows. Energies satisfy E^2 = p^2 + m^2 and the Fermi momentum satisfies k^2 = mu^2 - m^2.",
 ['inputs'],'every energy, chemical potential and inverse temperature, including extreme, equal, negative and complex values',
 'The tests check stored values at a few points.',
 ['qcd-sme/src/common/thermal.rs','qcd-sme/src/common/mod.rs','qcd-sme/src/low_level/common/mod.rs'],[],[('statistic_distribution_exponential','qcd-sme/src/low_level/common/mod.rs')],['return values'])
p('C14','Specialized one-loop integrands are the special cases of the general ones',
 "For every thermal one-loop integral and its mass derivative, in every projection and kinematic regime, the equal-mass form is the two-mass form at equal masses, the one-mass form is its limit when the other mass vanishes, the massless form is the limit when both vanish, and the vanishing-frequency and vanishing-momentum forms are the limits of the general one; the same result is reached whatever the order of the specializations. The derivative forms integrate to the derivative of the integral they belong to with respect to its first squared mass (half of the total derivative where both masses are equal), with the same sign in every regime.",
 ['inputs','configurations'],'every integral, every path through the lattice of specializations, every momentum, frequency, mass and temperature in the domain',
 'Each form is compared with stored numbers at a few points, independently of the others.',
 ['qcd-sme/src/low_level/oneloop/thermal/mod.rs','qcd-sme/src/low_level/oneloop/thermal/zero_matsubara.rs','qcd-sme/src/low_level/oneloop/thermal/zero_momentum.rs'],[],[('one function per specialization','qcd-sme/src/low_level/oneloop/thermal')],['return values'])
p('C15','Phase-boundary helpers: maximum, reduction and classification',
 "The critical temperature of a sampled curve is the first temperature at which the curve attains its global maximum. Reducing a phase boundary returns its longest prefix without a vanishing temperature, so it is idempotent. A point is deconfined if and only if it lies strictly above the piecewise-linear interpolation of the reduced boundary, or beyond its last chemical potential; points on the boundary, plateaus included, are confined, extending the boundary beyond its first vanishing temperature changes nothing, and chemical potentials below the first one are refused.",
 ['inputs'],'every sampled curve and every phase boundary with increasing chemical potentials (flat, rising, falling, single-point, with zeros), every point',
 'No test calls these helpers.',
 ['tc_long_prop/src/lib.rs'],[],[('find_critical_temperature, reduce_phase_boundary, is_deconfined_phase','tc_long_prop/src/lib.rs')],['return values'])
p('C16','The phase-boundary fit reproduces polynomial boundaries',
 "Fitting a phase boundary with a polynomial of degree n returns n + 1 coefficients, lowest degree first, and reproduces the data of any boundary that is itself a polynomial of degree at most n, sampled at n + 1 or more chemical potentials not above 2; only the reduced boundary matters, so that anything after the first vanishing temperature does not change the coefficients.",
 ['inputs'],'every polynomial boundary of low degree on a grid of at least n + 1 chemical potentials not above 2, with or without repeated points and a tail of vanishing temperatures',
 'No test calls the fit.',
 ['tc_long_prop/src/lib.rs'],[],[('parametrize_phase_boundary','tc_long_prop/src/lib.rs')],['returned coefficients'])
p('C17','The phase-diagram workflow writes what its input prescribes',
 "Given an input file whose temperatures start at zero, whose largest grid has at least five chemical potentials and whose critical temperature at the first of them does not vanish, the physical phase-diagram program produces exactly the prescribed data files for the uncorrected and then for the corrected configuration, one per polarization, chemical potential and temperature of the requested grids, each with one line per momentum, plus critical temperatures, their second derivatives, the fit and a copy of its input. Every propagator value is the library's propagator normalized so that it equals one over the squared renormalization point there; the corrected stage uses the corrected masses (with the matching shift of the renormalization constant) exactly at the points that are deconfined according to the uncorrected phase boundary, and the original ones elsewhere (at points that lie on the boundary up to rounding, either). Critical temperatures are the grid temperatures that maximize the infrared longitudinal propagator.",
 ['inputs','histories','configurations'],'every input file (grids, masses, renormalization data), the whole multi-stage run',
 'Nothing runs the program; its internal configuration object changes state between stages and no test observes it.',
 ['tc_long_prop/src/bin/physical_tc.rs','tc_long_prop/src/lib.rs'],[('Config','grids, masses, optional corrected masses, optional phase boundary','tc_long_prop/src/bin/physical_tc.rs')],[('Config::maybe_corrected_data, set_correctedfieldconfig, set_phase_boundary','tc_long_prop/src/bin/physical_tc.rs')],['output files','plot data'])
p('C18','Concurrent evaluations do not disturb each other',
 "While the settings are left alone, any number of threads may evaluate any mix of functions, sharing field configurations, and every call returns the very value it returns when executed alone in a fresh process; repeating a call, in any order and after any other calls, returns the identical value.",
 ['schedules','histories'],'every interleaving of evaluations by several threads and every order of calls',
 'The tests evaluate each function once; a cache or shared scratch value introduced by a change would pass them.',
 ['qcd-sme/src',QT],[],[('functions keep no state besides the settings','qcd-sme/src')],['return values, bit for bit'])
p('C19','The survey programs draw every combination of their grids with its own settings',
 "The one-mass and the two-mass survey programs draw, for pure Yang-Mills theory and for every number of flavors, quark mass (or pair of masses) and chemical potential of their grids, exactly one figure of the longitudinal gluon propagator against momentum with one curve per temperature, zero temperature first, and, for every number of flavors and mass, one figure of its infrared value against temperature with one curve per chemical potential and one figure of the critical temperature against the chemical potential. Every curve is the propagator of the library for exactly the flavors, masses, chemical potential and temperature that the file name, title and legend state, normalized, at each temperature, so that times the squared gluon mass it equals the squared ratio of gluon mass and renormalization point at the latter. The table tc.out has one line per combination, with the first temperature at which the infrared curve of that combination is maximal, and agrees with the figures.",
 ['histories','configurations'],'every combination of the grids of the programs, in the order in which they go through them and change the global number of flavors',
 'Nothing runs the programs; the number of flavors they use lives in a global register that is set between nested loops.',
 ['tc_long_prop/src/bin/one_mass_overall.rs','tc_long_prop/src/bin/two_masses_overall.rs','tc_long_prop/src/lib.rs',QT,YT],[('number of fermions','global register, set by the outer loop','tc_long_prop/src/bin/one_mass_overall.rs')],[('loops over flavors, masses, chemical potentials and temperatures','tc_long_prop/src/bin/one_mass_overall.rs, tc_long_prop/src/bin/two_masses_overall.rs')],['data handed to the plotting library, figure names, titles and legends','tc.out'])
p('C20','Results do not depend on the units',
 "The library has no scale of its own. Dividing the unit of mass by any factor - multiplying frequencies, momenta, masses, chemical potentials and energies, the masses of field configurations and the Matsubara regulator by it, squared masses by its square, densities by its cube, and inverse temperatures by its inverse - multiplies every result by the power of the factor that the dimension of the result prescribes: none for dressing functions and statistical distributions, -2 for propagators, 2 for polarizations and self-energies, 3 for densities, and the integrands accordingly. For the integrals this holds up to the accuracy of the quadrature, whose tolerance is multiplied by the square (for the charge density, the cube) of the factor.",
 ['inputs','configurations'],'every function, every argument, every field configuration and regulator, every factor (for the integrals, factors for which the quadrature resolves the integrand)',
 'Tests compare stored numbers in one set of units; an absolute cut-off, threshold or regularization shows only elsewhere.',
 ['qcd-sme/src/qcd','qcd-sme/src/ym','qcd-sme/src/low_level','qcd-sme/src/common'],[('field configuration, Matsubara regulator, tolerance','the dimensional state','qcd-sme/src/consts.rs, qcd-sme/src/qcd/types.rs')],[('closed forms of the integrands; reduction to dimensionless arguments','qcd-sme/src/low_level'),('t -> (1 - t)/t maps of the momentum integrals','qcd-sme/src/low_level/oneloop/thermal')],['return values'])
json.dump
p('C21','Real and complex numbers are interchangeable',
 "Every function that accepts real or complex numbers has a form for real ones, and gives, for complex arguments without imaginary part, the value it gives for the corresponding real arguments wherever that is a finite number - whichever of the arguments are complex. The number types agree on what their operations mean: arithmetic with reals, with numbers of their own type and with complex numbers, in place or not, reciprocal, negation, real and imaginary part, modulus, square root, exponential and logarithm, in any succession, give the value that mathematics prescribes whenever in between the number is made complex; and complex numbers other than zero have a logarithm and a square root everywhere, the negative real axis included.",
 ['inputs','histories'],'every generic function, every combination of real and complex arguments, every succession of operations on numbers of either type',
 'The tests evaluate the forms of a function at different points and do not compare them; the operations of the number types are not tested at all.',
 ['qcd-sme/src/types.rs','qcd-sme/src/low_level','qcd-sme/src/common','qcd-sme/src/qcd','qcd-sme/src/ym'],[],[('trait Num and its implementations','qcd-sme/src/types.rs'),('generic argument types of the correlators','qcd-sme/src/qcd/thermal.rs')],['return values'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
