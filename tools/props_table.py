I = ["inputs"]
T_SAMPLE = "The test suite evaluates each function at a handful of literal inputs; "

p("P01", "Straight-pipe friction factors match their published formulas everywhere",
  "For every Reynolds number and relative roughness in the domain, each named straight-pipe friction correlation returns the value of its documented formula, the implicit Colebrook value satisfies the Colebrook equation, and the automatic selection is 64/Re in laminar flow (Re < 2040) and the Colebrook-equivalent value above it. Pressure drops computed from a friction factor, transmission factors and material-roughness lookups follow their documented formulas and tables.",
  I, "all (Re, eD) with Re from creeping to 1e9 and eD from 0 to 0.1 and every named method",
  T_SAMPLE + "errors confined to a band of Re or eD, or to a method/roughness combination not tabulated, pass.",
  ["fluids/friction.py"], [("explicit approximations and Newton/LambertW Colebrook solution", "fluids/friction.py: Colebrook, Clamond, friction_factor")])

p("P02", "Curved-pipe, plate and helical friction correlations match their formulas",
  "For every Reynolds number, geometry and roughness in the domain, each helical-coil, curved-pipe, transition-Reynolds and plate-exchanger friction correlation returns the value of its documented formula, including on both sides of every documented regime switch. Automatic selection for curved pipes uses the laminar correlation below the applicable critical Reynolds number and the turbulent one above it.",
  I, "all Re, Di, Dc, roughness, chevron angle combinations in the documented domain",
  T_SAMPLE + "regime switches are sampled on one side.",
  ["fluids/friction.py"], [("laminar/turbulent switch per correlation", "fluids/friction.py: friction_factor_curved, friction_plate_*")])

p("P03", "Dimensionless groups and conversions equal their definitions in every form",
  "Each dimensionless-number function returns its defining ratio, gives the same value for every alternative input set (for example kinematic viscosity versus dynamic viscosity and density), and raises ValueError when no complete input set is supplied. Temperature-scale, viscosity, head/pressure and loss-coefficient conversions are exact mutual inverses up to rounding.",
  I, "all positive finite inputs spanning many decades, all alternative argument sets, all incomplete argument sets",
  T_SAMPLE + "alternative argument forms and incomplete forms are only spot-checked.",
  ["fluids/core.py"], [("argument-set dispatch on None", "fluids/core.py")])

p("P04", "Compressible-flow equations: one model, solvable for any unknown",
  "Each gas-pipeline, isothermal-flow and compression equation returns, for whichever variable is left unspecified, a value that together with the given inputs satisfies the single documented model equation. Solving forward and then backward for any other variable recovers the original input, and inputs that admit no physical (unchoked) solution raise an error instead of returning a number.",
  I, "all feasible (P1, P2, L, D, flow) states and every choice of unknown",
  T_SAMPLE + "round trips are checked for one state per equation.",
  ["fluids/compressible.py"], [("closed-form and numerical inversion per unknown", "fluids/compressible.py: isothermal_gas, Panhandle_A..IGT, isentropic_*")])

p("P05", "Sphere drag correlations and terminal-velocity solutions are consistent",
  "Each sphere drag correlation returns its documented formula on the correct side of every piecewise limit, and automatic selection follows the documented Reynolds-number ranges. The terminal velocity returned balances weight, buoyancy and drag, and the time-integrated trajectory of a falling sphere satisfies the equation of motion and approaches that terminal velocity.",
  I, "all Re up to 1e6 and all sphere diameters, densities and viscosities with positive results",
  T_SAMPLE + "piecewise limits and non-default methods are barely sampled.",
  ["fluids/drag.py"], [("piecewise polynomials, numerical root and ODE integration", "fluids/drag.py")])

p("P06", "Pipe-fitting loss coefficients match their documented correlations",
  "For every valid geometry, Reynolds number and method, entrance, exit, bend, helix, contraction and diffuser functions return the loss coefficient given by the documented formula or interpolated chart for the selected method. Loss coefficients are finite and non-negative and vanish where the fitting does not change the flow (equal diameters, zero angle) wherever the documented formula says so.",
  I, "all geometries in the documented domain, all methods, all optional argument combinations",
  T_SAMPLE + "the charts are evaluated at a few points.",
  ["fluids/fittings.py"], [("method dispatch and splines", "fluids/fittings.py: entrance_*, bend_*, contraction_*, diffuser_*")])

p("P07", "Valve coefficients and loss-coefficient conversions are exact inverses",
  "Converting among metric flow coefficient, imperial flow coefficient and loss coefficient, in any order and back, recovers the starting value, and every conversion obeys its documented definition. Re-basing a loss coefficient from one diameter to another preserves the pressure drop it represents.",
  I, "all positive coefficients and diameters, every ordered chain of conversions",
  T_SAMPLE + "only single literal conversions are compared.",
  ["fluids/fittings.py", "fluids/control_valve.py"], [("conversion constants", "fluids/fittings.py: Kv_to_K ..., change_K_basis; fluids/control_valve.py: convert_flow_coefficient")])

p("P08", "Crane valve and tee loss coefficients follow the documented formulas",
  "Every valve and branch/run tee loss-coefficient function following the Crane handbook returns the documented formula for every style, angle, seat/run diameter ratio and flow split, on the correct side of every documented switch. Omitting the friction factor is equivalent to supplying the documented fully-turbulent value for that diameter.",
  I, "all styles, angles, diameter ratios, flow ratios",
  T_SAMPLE + "style and angle branches are hit at single ratios.",
  ["fluids/fittings.py"], [("Crane TP-410 formulas and beta corrections", "fluids/fittings.py: K_*_Crane, Darby3K, Hooper2K")])

p("P09", "Differential-pressure meter coefficients match their published formulas",
  "For every meter type, discharge coefficient, expansibility, beta ratio and pressure-loss function returns the value of its documented formula for all diameters, ratios, Reynolds numbers and tap arrangements. Diameter-ratio and coefficient/loss conversions are mutual inverses, and expansibility factors tend to 1 as the differential pressure vanishes.",
  I, "all meter types, tap types, D, Do, P1, P2, k, Re in the documented domain",
  T_SAMPLE + "tap types and piecewise limits are only spot-checked.",
  ["fluids/flow_meter.py"], [("ISO 5167 formulas", "fluids/flow_meter.py")])

p("P10", "Flow-meter solver is consistent for every unknown and meter type",
  "For any flow-meter type and operating condition, solving for flow, upstream pressure, downstream pressure or orifice size yields a value that satisfies the meter's flow equation with the coefficient and expansibility that the library itself reports for that state. Solving for one unknown and feeding the answer back recovers the others.",
  I, "all meter types, all four unknowns, wide operating conditions",
  T_SAMPLE + "one operating state per meter.",
  ["fluids/flow_meter.py"], [("secant/brenth solve around discharge equation", "fluids/flow_meter.py: differential_pressure_meter_solver")])

p("P11", "Control-valve sizing satisfies the IEC equations in every regime",
  "For every fluid state and optional installation data, the flow coefficient returned for liquids and gases satisfies the documented IEC 60534 sizing equation for the regime reported (choked or not, turbulent or not, with or without piping corrections), and the detailed output agrees with the plain output. Choked-flow predicates, critical ratios and intermediate factors follow their documented formulas.",
  I, "all inlet/outlet states, flow rates, valve data, with and without fittings",
  T_SAMPLE + "laminar, choked and reducer branches are checked at book examples only.",
  ["fluids/control_valve.py"], [("regime iteration", "fluids/control_valve.py: size_control_valve_l, size_control_valve_g")])

p("P12", "Control-valve noise levels follow the documented standard in every regime",
  "Predicted liquid and gas control-valve sound levels equal the documented IEC 60534-8 procedure for every flow regime, with every correction applied exactly where the standard's limits say. The prediction varies continuously with pressure inside each regime.",
  I, "all states covering each noise regime",
  T_SAMPLE + "only the standard's worked examples are compared.",
  ["fluids/control_valve.py"], [("five-regime noise procedure", "fluids/control_valve.py: control_valve_noise_l_2015, control_valve_noise_g_2011")])

p("P13", "Relief-valve sizing and noise follow the documented API/VDI formulas",
  "Relief-valve areas, coefficients, back-pressure and superheat corrections and noise levels equal their documented formulas or tabulated interpolations for all inputs, choosing critical or subcritical sizing by the documented pressure-ratio limit. Rounding up selects the smallest standard size not below the requirement and raises when none exists.",
  I, "all flows, states, back-pressures, overpressures, table positions",
  T_SAMPLE + "table cells and limits are sampled at a few points.",
  ["fluids/safety_valve.py"], [("formulas and bicubic tables", "fluids/safety_valve.py")])

p("P14", "Two-phase pressure-drop correlations match their published formulas",
  "For all qualities, mass fluxes, properties and diameters, each two-phase pressure-drop correlation returns the value of its documented formula with the laminar/turbulent and flow-regime choices it documents, and the result is proportional to pipe length. Acceleration and gravity terms and the flow-regime maps follow their documented formulas.",
  I, "all m, x, densities, viscosities, surface tensions, D, roughness, angles, regimes",
  T_SAMPLE + "one or two states per correlation, so most laminar/turbulent pairs are never seen.",
  ["fluids/two_phase.py"], [("phase-wise friction and multipliers", "fluids/two_phase.py")])

p("P15", "Void-fraction and mixture-viscosity correlations match and stay physical",
  "For all qualities and phase properties, each void-fraction and two-phase-viscosity correlation returns the value of its documented formula. Void fractions lie in [0, 1], mixture density and viscosity lie between the two phase values, and both reduce to the single-phase values at quality 0 and 1 where the model allows.",
  I, "all x in [0,1], densities, viscosities, m, D, sigma",
  T_SAMPLE + "one literal per correlation.",
  ["fluids/two_phase_voidage.py"], [("correlations and Method dispatch", "fluids/two_phase_voidage.py")])

p("P16", "Packed-bed and packed-tower pressure drops match their documented models",
  "For all particle, fluid and bed inputs each packed-bed, voidage, demister and packed-tower correlation returns the value of its documented formula, applying wall and regime corrections exactly under the documented conditions. The implicit wet and flooding solutions satisfy their defining equations.",
  I, "all dp, voidage, velocity, fluid, bed and packing inputs",
  T_SAMPLE + "single literals per correlation.",
  ["fluids/packed_bed.py", "fluids/packed_tower.py"], [("correlations and implicit solves", "fluids/packed_bed.py; fluids/packed_tower.py")])

p("P17", "Filter, separator, mixing, saltation and open-channel formulas hold everywhere",
  "For all valid inputs, each screen/grill loss, vapour-liquid separator, agitation and mixer, pneumatic-saltation and weir/open-channel function returns the value of its documented formula or table interpolation, including conversions that must be mutual inverses. Inputs outside a documented piecewise range select the documented neighbouring branch.",
  I, "all inputs in the documented domains",
  T_SAMPLE + "one or two literals per function.",
  ["fluids/filters.py", "fluids/separator.py", "fluids/mixing.py", "fluids/saltation.py", "fluids/open_flow.py"], [("correlations", "module functions")])

p("P18", "Pump, motor and power functions follow their formulas and size tables",
  "Pump, motor and drive efficiencies, specific speeds and currents equal their documented formulas or tabulated interpolations for all inputs, and tabulated and motor efficiencies remain within (0, 1]. Motor rounding returns the smallest standard size not below the requirement and raises above the largest.",
  I, "all powers, speeds, heads, loads, poles, table positions",
  T_SAMPLE + "a few table cells.",
  ["fluids/pump.py"], [("tables and interpolation", "fluids/pump.py")])

p("P19", "Pipe and gauge look-ups are mutually consistent and never undersize",
  "Selecting a pipe by required inner diameter, outer diameter or nominal size returns an entry of the requested schedule whose outer diameter equals inner diameter plus two wall thicknesses and which is the smallest one satisfying the requirement. Looking up by any of the returned fields recovers the same pipe, gauge numbers and thicknesses invert each other within each gauge system, and impossible requests raise ValueError.",
  I, "all diameters, schedules and gauge systems",
  T_SAMPLE + "a few sizes of a few schedules.",
  ["fluids/piping.py"], [("schedule tables and linear search", "fluids/piping.py: nearest_pipe, gauge_from_t, t_from_gauge")])

p("P20", "Jet-pump solutions satisfy the ejector equations for every unknown set",
  "For any feasible combination of specified pressures, flows and diameters, the complete liquid jet-pump solution returned satisfies the documented pressure-ratio equation, mass balance and area relations, and returns unchanged the values that were given. Vacuum-leakage estimates equal their documented formulas.",
  I, "all feasible specification subsets and states",
  T_SAMPLE + "a few specification sets at one state.",
  ["fluids/jet_pump.py"], [("nested numerical solves", "fluids/jet_pump.py: liquid_jet_pump")])

p("P21", "Partially filled tank volume, height and wetted area are mutually consistent",
  "For every vessel orientation, head type and dimension, the volume at zero height is zero, increases with liquid height up to the total volume, equals the integral of the documented shape, and height-from-volume inverts volume-from-height. Wetted surface area likewise runs from zero to the total surface area without decreasing.",
  I, "all head types, orientations, dimensions, fill heights",
  T_SAMPLE + "a few shapes and heights.",
  ["fluids/geometry.py"], [("closed forms, quadrature and root finding", "fluids/geometry.py: V_horiz_*, V_vertical_*, SA_partial_*, TANK")])

p("P22", "Closed-form solids and exchanger geometry equal their definitions",
  "Areas, volumes, aspect ratios, sphericities and derived dimensions of cylinders, cones, shells, coils, plate and air-cooled exchangers equal their geometric definitions for all dimensions. Objects constructed from different but equivalent specifications report the same geometry, and over- or under-specified ones are rejected.",
  I, "all dimensions and specification subsets",
  T_SAMPLE + "single literals.",
  ["fluids/geometry.py"], [("closed forms", "fluids/geometry.py: HelicalCoil, PlateExchanger, AirCooledExchanger, SA_*, V_*")])

p("P23", "Continuous particle-size distributions are genuine probability laws",
  "For every distribution family and parameters, the cumulative function runs monotonically from 0 to 1, is the integral of the density in every basis, and the quantile function inverts it. Basis conversions and moment-based mean sizes equal the defining integrals of the density, and interval fractions add up to the whole.",
  I, "all families, parameters, truncations, bases, diameters",
  T_SAMPLE + "a few parameters and bases.",
  ["fluids/particle_size_distribution.py"], [("analytic basis integrals", "fluids/particle_size_distribution.py: PSDLognormal, PSDGatesGaudinSchuhman, PSDRosinRammler, PSDCustom, PSDInterpolated")])

p("P24", "Discrete size distributions conserve and convert fractions exactly",
  "A discretised size distribution built from any of its equivalent inputs (fractions, cumulative fractions, counts, any basis) reports the same distribution in all four bases, with fractions summing to one and cumulative fractions non-decreasing. Mean sizes and specified-percentile sizes equal their defining sums over the classes, and standard sieve series and spacings follow their documented progression.",
  I, "all class boundaries, fractions, orders, bases",
  T_SAMPLE + "one literature data set.",
  ["fluids/particle_size_distribution.py"], [("moment sums over classes", "fluids/particle_size_distribution.py: ParticleSizeDistribution, psd_spacing")])

p("P25", "Standard atmosphere obeys its layered hydrostatic model",
  "At every altitude the 1976 standard atmosphere reports temperature, pressure, density, gravity, viscosity, conductivity and sound speed given by its documented layer formulas, continuous across layers and mutually consistent through the ideal-gas law and hydrostatic balance. The integrated pressure difference between two heights equals the hydrostatic integral, and air mass follows its defining integral.",
  I, "all altitudes -610 m to 86 km and beyond, temperature offsets",
  T_SAMPLE + "a table of altitudes.",
  ["fluids/atmosphere.py"], [("layer table", "fluids/atmosphere.py: ATMOSPHERE_1976")])

p("P26", "NRLMSISE-00 atmosphere agrees with the published model, in any call order",
  "For every altitude, location, time and solar-activity input the empirical atmosphere returns the densities and temperatures of the published NRLMSISE-00 model, with total mass density equal to the sum over the reported species. Results depend only on the arguments: not on earlier calls, on other instances, or on concurrent threads.",
  ["inputs", "histories", "schedules"], "all model inputs, call sequences and thread interleavings",
  "The tests replay the published cases sequentially; state carried between calls or raced between threads is not exercised.",
  ["fluids/atmosphere.py", "fluids/nrlmsise00/nrlmsise_00.py"], [("per-call state objects", "fluids/nrlmsise00/nrlmsise_00.py; fluids/atmosphere.py: ATMOSPHERE_NRLMSISE00")])

p("P27", "Solar position, sunrise and earth-sun distance agree with astronomy",
  "For every date, place, elevation, pressure and temperature the solar angles agree with an independent astronomical computation, zenith and elevation are complementary, and the refraction-free and apparent angles differ by the documented refraction. Sunrise, transit and sunset are ordered and are the instants at which the reported solar elevation crosses the horizon limit or peaks.",
  I, "all dates 1950-2100, latitudes, longitudes, time zones",
  T_SAMPLE + "a handful of dates.",
  ["fluids/atmosphere.py", "fluids/optional/spa.py"], [("NREL SPA port", "fluids/optional/spa.py")])

p("P28", "Solar irradiation components add up and follow their documented models",
  "For every place, time, surface tilt and azimuth, total in-plane irradiation equals the sum of its direct and diffuse parts, diffuse equals sky plus ground parts, no component is negative, and all vanish appropriately at night. Each component follows its documented clear-sky and transposition formula.",
  I, "all dates, places, surface orientations, albedo, turbidity",
  T_SAMPLE + "one or two cases.",
  ["fluids/atmosphere.py", "fluids/optional/irradiance.py"], [("clear-sky and transposition models", "fluids/optional/irradiance.py")])

p("P29", "Scalar root finders return genuine roots or raise",
  "Whenever a scalar solver returns normally, the returned point satisfies the requested residual and step tolerances for the function it was given; bracketing solvers return a point inside the bracket and adjacent to a sign change. When no root can be found within the iteration limit, or the bracket contains no sign change, an exception is raised rather than a wrong answer.",
  I, "all continuous functions, brackets, guesses, tolerances and option combinations",
  T_SAMPLE + "a few textbook functions.",
  ["fluids/numerics/__init__.py"], [("convergence tests", "fluids/numerics/__init__.py: brenth, bisect, ridder, secant, newton, halley, one_sided_secant")],
  ["recorded sequence of function evaluations and the returned value"])

p("P30", "Multivariate solvers, fixed-point accelerators and minimisers converge truly",
  "Whenever a system solver or fixed-point accelerator returns normally, the returned point satisfies the equations to the requested tolerance; minimisers return a point no worse than every point they evaluated. Failure of an equation solver to converge within its limits raises, and damping, bounds and iteration-limit options are honoured.",
  I, "all smooth systems, starting points, tolerances, options",
  T_SAMPLE + "a few systems.",
  ["fluids/numerics/__init__.py"], [("convergence tests", "fluids/numerics/__init__.py: newton_system, broyden2, fixed_point*, nelder_mead, homotopy_solver, SolverInterface")],
  ["recorded sequence of function evaluations and the returned value"])

p("P31", "Polynomial evaluation and derivatives agree with exact arithmetic",
  "Every polynomial evaluation routine, in normal, domain-scaled, logarithmic, exponential and reduced-variable forms, returns the polynomial's value and each requested derivative with respect to the caller's variable, to within rounding error of exact arithmetic. All forms representing the same polynomial agree.",
  I, "all degrees, coefficients, domains and evaluation points",
  T_SAMPLE + "one or two polynomials.",
  ["fluids/numerics/polynomial_evaluation.py", "fluids/numerics/__init__.py"], [("Horner recurrences", "fluids/numerics/polynomial_evaluation.py"), ("Clenshaw", "fluids/numerics/__init__.py: chebval, exp_cheb*")])

p("P32", "Polynomial roots and algebra are correct for every coefficient pattern",
  "Closed-form quadratic, cubic and quartic solvers return every root, real and complex, to their documented accuracy, including repeated roots and, for the quadratic and cubic, degenerate leading coefficients. Polynomial addition, multiplication, differentiation, integration, scaling, deflation and form conversion equal exact polynomial algebra.",
  I, "all coefficient vectors including zeros and repeated roots",
  T_SAMPLE + "a few polynomials.",
  ["fluids/numerics/polynomial_roots.py", "fluids/numerics/polynomial_utils.py"], [("closed forms", "fluids/numerics/polynomial_roots.py"), ("algebra", "fluids/numerics/polynomial_utils.py")])

p("P33", "Dense and tridiagonal linear algebra agrees with exact arithmetic",
  "Determinant, inverse, LU factors, linear solves, products, transposes and tridiagonal operations on lists of lists agree with exact rational arithmetic to within the conditioning of the problem, for every size and pivoting pattern. Singular systems raise instead of returning finite garbage, least-squares and null-space results satisfy their defining equations, and inputs are not modified unless documented.",
  I, "all sizes, values, sparsity/zero-pivot patterns",
  "Tests cover fixed matrices; permutation patterns and sizes beyond the special-cased ones are sampled thinly.",
  ["fluids/numerics/arrays.py"], [("LU with pivoting; closed forms for small sizes", "fluids/numerics/arrays.py")])

p("P34", "Double-double arithmetic and special functions keep their stated accuracy",
  "Every extended-precision operation returns a normalised pair within double-double rounding (2^-100, relative to the operands for sums, a small multiple of it for roots, powers, exponentials and logarithms) of the exact result, and comparisons order pairs as the exact values do. Scalar special functions (Lambert W, dilogarithm, combinatorics, truncated exp/log and similar) agree with high-precision references over their whole domain.",
  I, "all finite operands and magnitudes",
  T_SAMPLE + "a few operands.",
  ["fluids/numerics/doubledouble.py", "fluids/numerics/special.py", "fluids/numerics/__init__.py"], [("error-free transformations", "fluids/numerics/doubledouble.py")])

p("P35", "Interpolation, splines and quadrature agree with references",
  "Linear and bilinear interpolation, B-spline evaluation, Chebyshev expansion objects, numerical quadrature and finite-difference derivatives return the mathematically defined value (exactly for the polynomial degrees they are exact for, within the requested tolerance otherwise), for any point, knot vector or order. Out-of-range evaluation follows the documented clamping or extrapolation.",
  I, "all tables, knots, degrees, evaluation points, integrands, orders",
  T_SAMPLE + "a few tables and integrands.",
  ["fluids/numerics/__init__.py", "fluids/optional/pychebfun.py"], [("de Boor/FITPACK ports, Gauss-Kronrod", "fluids/numerics/__init__.py")])

p("P36", "Numerical list utilities and error metrics equal their definitions",
  "Sequence builders, cumulative sums, differences, monotonicity tests, sorting helpers, statistics, error metrics, binary search and closeness tests return their defined value for every input length, sign and ordering, and raise where documented.",
  I, "all sequences including empty, singleton, repeated and non-finite-free values",
  T_SAMPLE + "a few sequences.",
  ["fluids/numerics/__init__.py", "fluids/numerics/arrays.py"], [("helpers", "fluids/numerics/__init__.py")])

p("P37", "Every method selector honours its name, listing and defaults",
  "For each family of correlations with a method argument, every name that the family's listing function reports for given inputs is accepted for those inputs and yields exactly the value of the corresponding stand-alone correlation, and unknown names raise. Omitting the method is the same as naming the documented default, and range-filtered listings contain only methods applicable to the inputs.",
  ["inputs", "configurations"], "all families, all method names, all inputs",
  T_SAMPLE + "names are tried at one input.",
  ["fluids/friction.py", "fluids/drag.py", "fluids/packed_bed.py", "fluids/two_phase.py", "fluids/two_phase_voidage.py", "fluids/fittings.py"], [("method dicts and if-chains", "*_methods functions")])

p("P38", "Unit-aware interface equals the plain interface in SI",
  "Calling any function or constructing any class through the unit-aware interface, with inputs expressed in any compatible units, returns the plain-SI result tagged with the documented unit. Inputs of the wrong dimension, or missing units where required, raise instead of silently converting.",
  ["inputs", "configurations"], "all wrapped functions, all compatible input units, positional/keyword/default argument patterns",
  T_SAMPLE + "a few dozen calls.",
  ["fluids/units.py"], [("docstring-driven wrapper", "fluids/units.py: wraps_numpydoc, wrap_numpydoc_obj")])

p("P39", "Array-vectorised interface equals element-wise scalar calls",
  "For every function with scalar results exposed by the vectorised interface and every broadcastable combination of array, list and scalar arguments, element i of the result equals the scalar function applied to the i-th elements, for positional and keyword arguments alike. Every public function of the plain package is available there.",
  ["inputs", "configurations"], "all functions, shapes, broadcasting patterns",
  T_SAMPLE + "two or three functions.",
  ["fluids/vectorized.py"], [("np.vectorize wrapper", "fluids/vectorized.py")])

p("P40", "Compiled (numba) interface equals the interpreted interface",
  "Every function that can be called through the compiled interfaces, scalar or array, returns the same value as its interpreted counterpart, or raises where that raises, for all inputs.",
  ["inputs", "configurations"], "all compilable functions, all inputs, optional-argument patterns",
  T_SAMPLE + "about forty functions at one input.",
  ["fluids/numba.py", "fluids/numba_vectorized.py"], [("source transformation and jit", "fluids/numba.py: transform_module, transform_complete")])

p("P41", "Calls are pure: no argument mutation, history dependence or thread interference",
  "A public call never modifies its arguments, and its result depends only on its arguments: repeating it after any other calls, in any order, or concurrently from several threads gives the identical result or the identical error. Objects are not altered by read-only queries, and lazily built caches and tables are transparent.",
  ["inputs", "histories", "schedules"], "all public functions, call histories and thread interleavings",
  "Tests call each function once with fresh literals; aliasing, caches and threads are not exercised.",
  ["fluids"], [("module-level tables, lazy caches, mutable defaults", "fluids/*.py")])

p("P42", "Physical formulas are independent of the system of units",
  "For every function whose documented formula is dimensionally homogeneous, rescaling all inputs to another coherent system of base units rescales the result by exactly its documented dimension. No hidden dimensional constant or threshold changes the answer.",
  I, "all such functions, all positive scale factors for mass, length, time, temperature, amount and current",
  T_SAMPLE + "every literal is in SI.",
  ["fluids"], [("formulas in dimensionless groups", "fluids/*.py")])

p("P43", "Outputs respond to inputs in the physically required direction",
  "Across every regime the documented physics fixes the sign of the response: more flow, length or roughness never lowers a frictional pressure drop, larger valves or openings pass more, thicker or longer bodies have more volume and area, and required sizes grow with duty. Results stay finite and of the required sign throughout the domain.",
  I, "all inputs, ordered pairs differing in one argument",
  T_SAMPLE + "no ordered pairs are compared.",
  ["fluids"], [("continuous monotone formulas", "fluids/*.py")])

p("P44", "Weather-station records and degree-day sums are read and reduced correctly",
  "Parsing daily-summary records returns exactly the documented fields converted to SI, with missing-value sentinels reported as absent, for every record. Degree-day functions equal their definitions, the closest station reported is truly the closest satisfying the filters, and aggregated statistics over any period equal direct reductions of the daily data.",
  ["inputs", "histories"], "all records, sentinel patterns, locations, filters, periods",
  T_SAMPLE + "a few stations and records.",
  ["fluids/design_climate.py"], [("fixed-format parser, k-d tree, cached aggregates", "fluids/design_climate.py")])

p("P45", "Answers do not depend on which optional packages are installed",
  "The library imports and works without NumPy, SciPy, pandas, Numba, pint, mpmath and the other optional packages. Every call that does not itself need an absent package gives the same answer, or the same error, as with everything installed.",
  ["inputs", "environments"], "all public calls, all inputs, sets of absent packages",
  "Tests run in one environment with everything installed; the fallback code paths are never taken.",
  ["fluids"], [("lazy imports and pure-Python fallbacks", "fluids/numerics/__init__.py: quad, fsolve, horner, interp, solve; fluids/*.py lazy imports")])
