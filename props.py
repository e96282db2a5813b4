# Single source for what is claimed: gen.py writes properties.jsonl and MANIFEST.json from here, check.py takes harness and bounds.
ASSUME=[
 "doubles are read as exact real numbers in symbolic computation (concrete-only arithmetic is IEEE); rounding is outside the claim and counterexamples must reproduce in IEEE arithmetic",
 "sin, cos, sinh, cosh, sqrt, exp, log, pow are uninterpreted except for the algebraic identities stated in DESIGN.md",
 "divisors are non-zero and radicands non-negative where the code divides or takes roots of symbolic values (counted in domain_assumptions_added)",
 "libstdc++, boost and libm code outside /repo that is not inlined runs natively on concrete data",
 "clang 18 -O1 IR with NDEBUG represents the shipped build (the project builds with gcc -O2 -DNDEBUG)"]
def M(n,w): return {"name":n,"where":w}
PROPS={}
def prop(id,title,statement,over,qtext,why,files,mech,harness,bounds,outside,**k):
    PROPS[id]=dict(title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,harness=harness,bounds=bounds,outside=outside,**k)
NA={}   # properties stated but not decided: id -> dict(title.., reason)
def na(id,title,statement,over,qtext,why,files,mech,reason):
    NA[id]=dict(title=title,statement=statement,over=over,qtext=qtext,why=why,files=files,mech=mech,reason=reason)

prop('P01',"Propagation visits exactly the requested elements, in order",
 "Propagating a state from a start index for a signed number of elements visits exactly those elements, one after another in the sign's direction, and stops at the ends of the beamline or when the count is used up, for every start and every count including the extreme ones. Each element sees the direction and the index that will follow it, and may change that index to redirect the walk. An observer attached to an element is called exactly once per visit with the state as it is just after that element; the state afterwards names the next index and the direction.",
 ["inputs","configurations"],"every start index, every signed element count, every beamline of up to N elements, every single redirection",
 "the tests propagate a few whole lattices with default start and count; the count has 2^32 values and the start 2^63",
 ["src/base.cpp","src/flame/base.h"],[M("Machine::propagate","src/base.cpp"),M("ElementVoid::set_observer","src/flame/base.h")],
 ['p01.cpp'],"beamlines of 0..4 elements (6 thorough); start any value 0..2^63-1; count any 32-bit value; at most one redirection to any index; an observer on every element",
 "more elements or redirections than the bound; start above 2^63-1",must_cover=['end','backward','forward','redirected','observed'])
prop('P03',"Moments are transported by the linear map each element reports",
 "When a beam passes an element, in either direction, each charge state's centroid becomes the element's reported transfer map applied to it, and its covariance matrix becomes map times matrix times transposed map. The covariance stays symmetric and the map's constant row stays (0,..,0,1). This holds for every element kind, aligned or misaligned, for every number of charge states.",
 ["inputs","configurations"],"every beam energy, strength, length, centroid and covariance within the stated ranges, for each element kind, alignment and direction",
 "the tests compare a handful of fixed lattices with stored numbers",
 ["src/moment.cpp","src/flame/moment.h","src/rf_cavity.cpp"],[M("MomentElementBase::advance","src/moment.cpp"),M("ElementRFCavity::advance","src/flame/rf_cavity.h")],
 ['p03.cpp'],"one element of each of 16 kinds; 1..2 charge states (3 thorough); aligned, displaced, rotated, or both (fixed numbers); symbolic lengths, strengths, energies, centroids (each entry in [-5,5]) and covariances; backward steps with symbolic moments and fixed element and energy",
 "chains (they are compositions of single steps), cavity strengths other than the fixed ones, the charge stripper (own property)",must_cover=['end','backward','misaligned'])
prop('P05',"Results never depend on what the machine simulated before",
 "The state obtained by propagating a beam through a machine depends only on the machine's configuration and that beam, never on earlier propagations by the same machine: it equals the result on a freshly built machine. This holds whatever the earlier beam was (other energy, charge, phase, mass, frequency, number of charge states), whichever direction it went, and also when the earlier attempt ended in an error, in which case the same request fails again.",
 ["histories","inputs"],"every pair of beams sent one after the other through each element kind, in every combination of directions and charge state counts",
 "element results are cached between calls; tests rarely reuse a machine, and never with a beam that differs in exactly one quantity",
 ["src/moment.cpp","src/flame/moment.h","src/rf_cavity.cpp","src/flame/rf_cavity.h"],[M("MomentElementBase::check_cache","src/moment.cpp"),M("ElementRFCavity::advance","src/flame/rf_cavity.h")],
 ['p05.cpp'],"histories of two propagations; one element of each of 17 kinds; 1..2 charge states each; forward kinds with every particle quantity symbolic in both beams; cavities, curve elements and backward steps with two fixed beams that agree except for one chosen quantity, moments symbolic",
 "histories longer than two beams; beams differing in several quantities at once for the kinds with fixed beams",must_cover=['end','direction change','charge state count change','failed attempt'])
prop('P08',"Configurations are independent values",
 "A configuration, once copied, scoped, swapped or nested in another, behaves as a value of its own: changing, flattening or adding a scope to one never changes what any other configuration reports. Every configuration always reports exactly the parameters that were put into it or inherited when it was made.",
 ["histories","inputs"],"every sequence of operations up to the bound, over configurations that share storage, with arbitrary parameter values",
 "storage is shared until written; tests exercise two or three fixed sequences",
 ["src/config.cpp","src/flame/config.h"],[M("Config copy-on-write","src/config.cpp"),M("Config::flatten","src/config.cpp")],
 ['p08.cpp'],"3 configurations, 2 parameter names, every sequence of 3 operations (4 thorough) out of copy, set, set untyped, exchange, push scope, flatten, new scope, swap; symbolic values",
 "longer sequences, more names",must_cover=['end'])
prop('P09',"Parameter lookup obeys scope, type and default rules",
 "Looking up a parameter finds the innermost definition of that name; a typed lookup succeeds exactly when that definition has the requested type, otherwise it reports a key error, or returns the given default, or reports failure without touching the target, according to the form of the request. Flattening scopes changes no lookup result and makes every visible parameter appear when listing.",
 ["inputs","configurations"],"every combination of inner and outer definition types, requested type and way of nesting, with arbitrary values",
 "tests look up a few present parameters; wrong types and shadowing with another type are not covered",
 ["src/config.cpp","src/flame/config.h"],[M("Config::get/tryGet","src/flame/config.h"),M("Config::getAny/tryGetAny","src/config.cpp")],
 ['p09.cpp'],"two or three scopes, one queried name, all four value types or absent in two of them, all four requested types, six ways of nesting; symbolic values",
 "definitions of the name in more than two scopes",must_cover=['end','shadowed'])
prop('P07',"Copied states equal their source and are independent of it",
 "A state made by copying or assigned from another holds exactly the source's position, reference and per-charge-state quantities, moments and summary statistics, whatever size it had before, and leaves the source untouched. From then on changing, propagating or destroying one does not affect the other, and both continue identically when propagated the same way. This holds for all simulation types.",
 ["inputs","configurations"],"every content of the source and of the overwritten state, for 1..3 charge states on each side",
 "tests copy one state and compare a few fields",
 ["src/moment.cpp","src/base.cpp","src/linear.cpp","src/flame/moment.h"],[M("MomentState::assign/clone","src/moment.cpp"),M("StateBase::assign","src/base.cpp")],
 ['p07.cpp'],"1..3 charge states in source and target; every number in the states symbolic in +-10^9; one change after the copy","more charge states; Python-side copies",must_cover=['end','resized','linear'])
prop('P10',"Named state parameters are complete, stable and live",
 "Every state offers a fixed list of uniquely named parameters, whose dimensions always match the current number of charge states and whose storage is the state's own: reading gives the current value and writing is seen by the next propagation. The list, the kinds and the number of dimensions never change over the life of a state, and valid indices are exactly those below the dimensions.",
 ["histories","configurations"],"all charge state counts in bounds before and after a charge state change, for every parameter and every index",
 "tests read some parameters of one state",
 ["src/moment.cpp","src/base.cpp","src/linear.cpp","src/flame/base.h"],[M("getArray","src/moment.cpp"),M("ArrayInfo::inbounds/raw","src/flame/base.h")],
 ['p10.cpp'],"1..4 charge states before and after a stripper, default-constructed, cloned and propagated states; all three simulation types","more than 4 charge states",must_cover=['end','count changed'])
prop('P15',"Elements are found by name, type and index",
 "For every beamline, asking for the nth element of a name returns the nth such element in beamline order or nothing, and the ranges by name and by type list exactly the matching elements in beamline order; indices, iteration and direct access agree. This stays true after an element is reconfigured, including under a new name.",
 ["configurations","inputs","histories"],"every assignment of names and types to beamlines within bounds, every nth, every single reconfiguration",
 "tests look up a few unique names; repeated names and renames are not covered",
 ["src/base.cpp","src/flame/base.h"],[M("Machine::find","src/flame/base.h"),M("Machine::reconfigure","src/base.cpp")],
 ['p15.cpp'],"1..3 elements (4 thorough), 3 names of which one is a prefix of another, 2 types, nth any value up to 10^6, at most one reconfiguration","longer beamlines",must_cover=['end','renamed'])
prop('P23',"Stepping through an array visits every index exactly once",
 "Stepping through the indices of an array of any shape visits every index within the limits exactly once and no other, also when a dimension is empty, and then stays finished. An index is reported valid exactly when it lies below every dimension, and its address is the base plus the strides times the index.",
 ["inputs","configurations"],"every shape up to the bound and every index","the one test steps through a single shape",
 ["src/flame/util.h","src/flame/base.h"],[M("ndindex_iterate","src/flame/util.h"),M("ArrayInfo","src/flame/base.h")],
 ['p23.cpp'],"0..3 dimensions, each limit symbolic in 0..4 (5 thorough)","larger limits",must_cover=['end','empty'])
prop('P04',"The bunch summary is the charge-weighted mean and covariance",
 "At every point where a state is visible (just constructed, taken from a source, after any element in either direction) its summary centroid is the charge-weighted mean of the charge states' centroids, its summary matrix is the charge-weighted mean of their covariances plus the spread of their centroids, zero in the constant row and column, and its rms sizes are the square roots of that matrix's diagonal.",
 ["inputs","configurations"],"all charges, centroids and covariances in the stated ranges, for each way of reaching the state",
 "tests compare summary numbers of a few fixed beams, mostly with one charge state or equal centroids",
 ["src/moment.cpp","src/flame/moment.h"],[M("MomentState::calc_rms","src/moment.cpp")],
 ['p04.cpp'],"1..3 charge states (4 thorough) with symbolic charges, centroids and tridiagonal covariances; states from configuration, source element, or after one and two passes of each of 17 element kinds with fixed strengths","denser covariances at the input; more charge states",must_cover=['end','several'])

prop('P06',"A reconfigured element behaves like a newly built one",
 "After one element of a machine is given a new configuration, the machine simulates every beam exactly as a machine built with that configuration from the start, in both directions, whatever was simulated before the change; the element reports the new configuration, keeps its index and its observer. A change that cannot be made (no such element, another or unknown type, missing or invalid parameter) is reported as an error and leaves the machine as it was. This holds for all simulation types.",
 ["histories","configurations","inputs"],"every element kind, each of its parameters changed on its own, with and without earlier propagation, for all beams within the stated ranges",
 "tests reconfigure one or two parameters of one or two element kinds",
 ["src/base.cpp","src/flame/base.h","src/moment.cpp","src/linear.cpp","src/flame/linear.h","src/flame/rf_cavity.h","src/rf_cavity.cpp"],[M("Machine::reconfigure","src/base.cpp"),M("element_builder_impl::rebuild","src/flame/base.h"),M("ElementVoid::assign and overrides","src/base.cpp")],
 ['p06.cpp'],"a three-element beamline with each of 18 element kinds in the middle; 10 to 26 single-parameter changes per kind, removal and zeroing of the length included,, symbolic new values where the map stays cheap and fixed ones otherwise; symbolic moments; cavities also via an intermediate change of cavity type; 6 kinds of refused change",
 "several parameters changed at once; data files rewritten in between (own property)",must_cover=['end','used before','refused','linear'])

prop('P16',"Straight elements apply the textbook linear map",
 "A drift, magnetic or electrostatic quadrupole, solenoid, orbit corrector and thin-lens sextupole that is not misaligned applies to each charge state exactly the textbook linear map for its length and strength, computed from that charge state's own charge-to-mass ratio and energy. A positive quadrupole strength focuses horizontally. With no field, or no length, the map is that of the drift of the same length. A field given as curves acts as the sequence of equal slices with the scaled sum of the curves.",
 ["inputs","configurations"],"every length, strength, charge state and energy in the stated ranges, including zero and both signs",
 "tests compare one or two stored lattices; sign, zero and per-charge-state dependence are sampled at single points",
 ["src/moment.cpp","src/moment_sup.cpp","src/flame/moment.h"],[M("recompute_matrix of each element","src/moment.cpp"),M("GetQuadMatrix, GetSolMatrix, GetSextMatrix, GetCurveData","src/moment_sup.cpp")],
 ['p16.cpp'],"lengths 0 or 0.01..3 m, fields 0 or within +-40 T/m (+-9 T, +-20 kV), energies 0.2..200 MeV/u, charge-to-mass 0.1..0.5, 1..2 charge states; curves with 1..2 slices and 1..2 curves with symbolic scale; sextupole with 1..2 steps",
 "misaligned elements (own property), thick-lens sextupole, bends; more slices",must_cover=['end','several'])

prop('P20',"A charge stripper recombines the beam and redistributes it",
 "A beam passing a charge stripper comes out with exactly the configured charge states, in order, carrying the configured amounts, or with the Baron model the amounts of its Gaussian formula at the incoming speed. Every new charge state starts from the charge-weighted mean centroid and phase, the mean energy changed by the configured energy loss, and the combined covariance of the incoming charge states (their own plus the spread of their centroids) in which the variances of the two angles and of the energy grow by exactly the scattering, straggling and foil variances, correlations keeping their coefficient. The reference takes the stripper's charge and its own energy loss; position and phase stay. A backward pass, an unknown model, and charge lists of different lengths with the model off are refused with the beam unchanged.",
 ["inputs","configurations"],"every incoming beam, every amount and every stripper parameter in the stated ranges, for all numbers of charge states in bounds before and after",
 "tests run one stripper lattice from one beam against stored numbers",
 ["src/chg_stripper.cpp","src/flame/chg_stripper.h"],[M("ElementStripper::Stripper_GetMat, ChargeStripper","src/chg_stripper.cpp")],
 ['p20.cpp'],"1..2 charge states in (3 thorough), 1..3 out; charges, energies 15..18 MeV/u, phases, centroids, variances and seven correlations symbolic; default and fully configured symbolic stripper parameters; three charge models; four kinds of refused pass",
 "parameter vectors shorter than three entries; other correlations at the input",must_cover=['end','recombined','refused','backward'])

prop('P26',"Bends and the thick sextupole solve the linear equations of motion",
 "A magnetic sector bend, with or without field gradient of either sign and with pole face angles, an electrostatic bend (cylindrical or spherical, horizontal or vertical, with fringe terms) and a thick sextupole apply to each charge state the linear map that solves their equations of motion: focusing in both planes, dispersion, path length and time of flight terms, and the steering of charge states or energies that differ from the design. The map is finite and continuous where the net focusing vanishes. A bend of zero length is the identity; a bend of zero angle is a straight gradient magnet; a sextupole without field is a drift. A sextupole focuses along its offset according to the length of the offset.",
 ["inputs","configurations"],"every length, bending angle, gradient, energy and charge state in the stated ranges, for each fit mode, edge, orientation and field shape",
 "the tests compare one arc lattice with stored numbers; gradients, zero net focusing and spherical bends are not covered",
 ["src/moment_sup.cpp","src/moment.cpp"],[M("GetSBendMatrix, GetEBendMatrix, GetSextMatrix","src/moment_sup.cpp"),M("ElementSBend, ElementEDipole::recompute_matrix","src/moment.cpp")],
 ['p26.cpp'],"lengths 0 or 0.1..3 m, angles 0 or 2..60 degrees, gradients 0, +-0.01..5 /m^2 and the one cancelling the bend exactly, energies 1..200 MeV/u, charge-to-mass 0.1..0.5, 1..2 charge states; sextupole 0 or +-0.1..40 with one step and symbolic offset",
 "misaligned bends (own property); several thick sextupole steps",must_cover=['end','electrostatic','sextupole'])

prop('P17',"A misaligned element acts as the aligned one in its own frame",
 "An element displaced by dx, dy and rotated by pitch, yaw and roll about its centre acts exactly as the aligned element does in the element's own frame: the beam is transformed into the frame at the entrance, passes the aligned element, and is transformed back at the exit. The transformation is the rigid displacement and rotation about the middle of the element, computed with each charge state's own velocity. A misalignment without rotation of an element whose map is a drift has no effect; markers, monitors, drifts and matrix elements ignore misalignment; a corrector's own rotation is applied in addition.",
 ["inputs","configurations"],"every displacement, every small single rotation and two fixed combined rotations, every beam energy in range, for each element kind",
 "tests compare a few misaligned elements with stored numbers, one setting each",
 ["src/moment.cpp","src/moment_sup.cpp","src/flame/rf_cavity.h"],[M("MomentElementBase::get_misalign","src/moment.cpp"),M("RotMat, inverse","src/moment_sup.cpp")],
 ['p17.cpp'],"15 element kinds with fixed strengths; displacements within +-10 mm symbolic; one symbolic rotation within +-0.1 rad (fixed 0.03 for curve elements, sextupole and cavity), or two fixed combinations of three rotations up to 2.1 rad; energies 5..20 MeV/u symbolic; 1..2 charge states",
 "tilted cavities (only displacement and roll are covered); several symbolic rotations at once",must_cover=['end','tilted'])

prop('P18',"Going forward and then backward restores the beam",
 "A beam propagated forward over some elements and then backward over the same ones comes back with the position, reference, charges, energies, phases, centroids and covariances it had before, and a further forward pass gives the same beam as the first. This holds for every element kind that supports going backward, aligned or misaligned, with cavities restoring energies and phases from the forward pass. Elements that cannot be traversed backward (sextupole, stripper) report an error instead.",
 ["inputs","histories","configurations"],"every centroid, covariance, phase and position, for each element kind, alignment and chain in bounds",
 "tests go back over one stored lattice and compare a few numbers",
 ["src/moment.cpp","src/moment_sup.cpp","src/flame/rf_cavity.h","src/chg_stripper.cpp"],[M("MomentElementBase::advance, retreat branch","src/moment.cpp"),M("ElementRFCavity::advance, retreat branch","src/flame/rf_cavity.h")],
 ['p18.cpp'],"single elements of 15 kinds and chains of three (two as well for cavities and in the thorough tier) with fixed moderate strengths and energies; 1..2 charge states; symbolic centroids, banded covariances, phases and position; aligned or fixed misalignment; cavities with and without multipoles",
 "cavities with emittance growth (not linear, not restored by design); other strengths and energies; cavities with pitch or yaw are held to 1e-3 only (known finding); deviations below 1e-6 in mm, rad, MeV (rounding of the matrix inverse)",must_cover=['end','again','cavity','misaligned','refused'])
prop('P19',"Elements change only what they should; positions and phases advance consistently",
 "Passing an element advances the position by its length (markers, monitors and correctors count as having none) and, for elements that do not accelerate, the phase of the reference and of each charge state by its own phase advance over that length, with the sign of the direction; a bend adds the change of the centroid's phase. Charge, amount, mass and frequency of every particle, the energies (except in cavities) and the number of charge states stay as they are. Energy-dependent quantities of every particle always agree with its energy and mass afterwards, also when only the energy had been set before.",
 ["inputs","configurations"],"every energy, mass, frequency, phase, charge, amount, position and length in the stated ranges, for each element kind in both directions",
 "tests compare final numbers of stored lattices; a wrong phase of one charge state, or stale derived quantities, would mostly go unnoticed",
 ["src/moment.cpp","src/flame/moment.h","src/flame/rf_cavity.h"],[M("MomentElementBase::advance, ElementSBend::advance, ElementSext::advance","src/moment.cpp"),M("Particle::recalc","src/flame/moment.h")],
 ['p19.cpp'],"16 element kinds, aligned or misaligned, forward and backward (cavities and sextupole forward), 1..2 charge states; symbolic particle quantities and lengths where the map stays cheap (fixed strengths, and fixed energies for curve, electrostatic bend, misaligned and backward cases)",
 "energies of cavities (own property); the stripper (own property)",must_cover=['end','backward','cavity','stale'])
prop('P22',"A beam built from a configuration is what the configuration says",
 "A beam state built from parameters, by the machine, by a source with its own parameters or from the lattice's top level, has exactly the listed charge states, or the single selected one, each with its charge, amount, centroid and covariance taken from the right variables; its phase is the centroid's, its energy the reference's plus the centroid's offset. The reference has the given energy, mass and frequency (or the default) and, unless given, the first listed charge and amount. Derived quantities agree. Incomplete or inconsistent descriptions (lengths that differ, missing or wrongly sized vectors, selection out of range, empty list) are refused.",
 ["inputs","configurations"],"every value of each parameter, for all combinations of optional parameters and selections in bounds, and eight kinds of invalid description",
 "tests build a few beams from stored lattices",
 ["src/moment.cpp","src/base.cpp"],[M("MomentState::MomentState","src/moment.cpp"),M("Machine::allocState","src/base.cpp")],
 ['p22.cpp'],"1..3 listed charge states; all, one, or an out-of-range one selected; optional charge, amount, frequency, variable names; three ways of building; all numbers symbolic (first seven entries of each covariance)",
 "more charge states",must_cover=['end','selected','source','refused'])
prop('P25',"The Vector and TransferMatrix simulations apply the documented maps",
 "In the Vector and TransferMatrix simulations, passing drift, quadrupole, solenoid, gradient bend, generic and marker elements multiplies the state by the element's map (positive quadrupole strength focuses horizontally; no strength or no length gives the drift's or the identity map), in beamline order; both simulations apply the same maps, advance the position by the lengths, and start from the given, possibly partial, initial values. Oversized initial or transfer arrays, unknown element types and missing required parameters are refused.",
 ["inputs","configurations"],"every strength, length, angle, matrix entry and initial value in the stated ranges, for every pair of element kinds",
 "tests propagate a drift and a generic element with fixed numbers",
 ["src/linear.cpp","src/flame/linear.h"],[M("LinearElementBase::advance","src/flame/linear.h"),M("Get2by2Matrix, element constructors","src/linear.cpp")],
 ['p25.cpp'],"pairs of the six element kinds; lengths 0 or 0.05..3 m; strengths 0, absent or up to +-9; bends of 0.1..1.5 rad with gradient of either sign; initial values complete, partial or absent, from the state or a source element",
 "backward propagation, which these simulations do not define",must_cover=['end','source','refused'])
prop('P11',"Lattice expressions have the value of ordinary arithmetic",
 "An expression in a lattice file, built from numbers, variables, the four operations, signs, parentheses and the provided functions, has the value ordinary arithmetic gives it, with the usual precedence and left to right, wherever it stands: in a variable, an element property or a vector. Variables given by the caller count like variables of the file. A variable has the value of its definition and is visible in every element unless a property of the same name shadows it there. A division without finite result, malformed numbers, undefined or redefined names, operands of the wrong type and any other syntax error are reported and yield no configuration.",
 ["inputs"],"every value of the variables, for every expression of up to four operands with every combination of operators, one pair of parentheses and one sign, every function, and 44 kinds of malformed text",
 "the tests evaluate a few fixed expressions",
 ["src/glps.y","src/glps.l","src/glps_ops.cpp","src/glps_parser.cpp","src/config.cpp"],[M("grammar and operators","src/glps.y"),M("operations","src/glps_ops.cpp"),M("GLPSParser::parse_byte, fill_context","src/config.cpp")],
 ['p11.cpp'],"2..4 operands from three symbolic variables in [-5,5] and pi, all operator combinations, 6 parenthesis placements, one sign; 11 functions; divisors of magnitude above 1e-3, or exactly zero; 24 number formats; 44 malformed texts; four layouts of definitions",
 "longer expressions; parsing from files and including other files",must_cover=['end','operators','function','division','numbers','errors','definitions'])
prop('P12',"Beamlines are composed by concatenation, nesting, reversal and repetition",
 "A beamline definition yields its items in the written order, where an item is an element, an earlier beamline, a reversed one or one repeated a number of times, in any combination and nesting; repetition by a non-integral number uses its integral part. The resulting lattice is that of the USE statement, or of the last beamline, and every occurrence of an element has the type and properties of its definition. Negative or huge repetition, undefined or doubly defined names, wrong item types, an unknown or empty chosen beamline are refused.",
 ["inputs","configurations"],"every combination of items on two levels of nesting, every repetition number from -10 to 5 and from 2^32 to 1e300",
 "the tests parse a few fixed beamlines",
 ["src/glps.y","src/glps_ops.cpp","src/glps_parser.cpp","src/config.cpp"],[M("glps_append_expr, glps_add_line","src/glps_parser.cpp"),M("unary_bl_negate, binary_bl_mult","src/glps_ops.cpp"),M("fill_context","src/config.cpp")],
 ['p12.cpp'],"first beamline of 0, 2 or 3 elements; two more, each of items of 12 shapes (6 for later items in the quick tier); four USE choices; symbolic repetition numbers",
 "repetition numbers between 5 and 2^32",must_cover=['end','nested','repeated','refused'])
prop('P02',"A beamline acts as the composition of its parts",
 "Propagating a beam over a beamline gives the same beam however the walk is cut into successive calls, also when the state is copied in between. Replacing a drift, quadrupole, solenoid, bend or corrector by two consecutive ones that share its length or strength (inner pole faces perpendicular) gives the same map, position and phases. Inserting an element without effect anywhere changes nothing.",
 ["inputs","histories","configurations"],"every cut of three-element beamlines, every split of each element's length, every moment, strength and energy in the stated ranges",
 "the tests propagate whole stored lattices in one call; consistency between different descriptions of the same beamline is never compared",
 ["src/base.cpp","src/moment.cpp","src/moment_sup.cpp","src/flame/rf_cavity.h"],[M("Machine::propagate","src/base.cpp"),M("element maps","src/moment_sup.cpp"),M("MomentElementBase::advance","src/moment.cpp")],
 ['p02.cpp'],"three-element beamlines with each of 17 kinds in the middle, cut at any two places; splits of 8 kinds at any point (lengths 0.05..1 m each), fields of either sign or none, symbolic energies and charge for straight elements, fixed energy and curvature for bends (gradients 0 and +-0.7); five kinds of elements without effect inserted at three places; 1..2 charge states; symbolic centroids and banded covariances",
 "splitting of cavities, curve elements and misaligned elements",must_cover=['end','pieces','copied','split','bend','correctors','inserted'])
prop('P21',"Field-map cavities apply the gain, phase and thin-lens map of their data file",
 "A cavity described by a data file changes the energy and phase of the reference and of every charge state by the drift-kick sum over the file's longitudinal field, at the driven phase given by phi, or, when a synchronous phase is given, by the file's fit coefficients. Its transfer map is the product of the file's drifts, multipoles and gaps in the file's order, with strengths scaled by the cavity's scaling factor, the charge state and the energy reached, with the multipoles of higher order than MpoleLevel left out, and at a frequency that is a multiple of the sampling frequency the phase coordinate is converted. The centroid's longitudinal part is the charge state's difference from the reference. With emittance growth requested, the spreads of angles and energy are enlarged by the growth that the beam's size, centroid and bunch length at the cavity cause, and nothing else changes.",
 ["inputs","configurations"],"every scaling factor, phase, energy, charge and beam phase in the stated ranges, every multipole type, level and kind of synchronous phase",
 "the tests compare two stored lattices",
 ["src/rf_cavity.cpp","src/flame/rf_cavity.h","src/moment_sup.cpp"],[M("ElementRFCavity::LoadCavityFile, propagateRFGap, GetCavMatGenericParams, TransFacts, calRFcaviEmitGrowth","src/rf_cavity.cpp"),M("ElementRFCavity::advance","src/flame/rf_cavity.h")],
 ['p21.cpp'],"a file with three field points, two multipoles of one of six types, one acceleration gap and four drifts; MpoleLevel 0, 1, 2 and default; scaling 0..2 with phase +-180 deg, or energies 0.4..5 MeV/u, or beam phases +-10 rad, or charge ratios 0.1..0.3 symbolic (the others fixed), and all of them together; driven and synchronous phase (both fit kinds); frequency once and twice the sampling frequency; two charge states; a second file with every multipole type, two gaps and fits of degree nine; emittance growth for symbolic centroid and seven symbolic covariances (0.1..9 mm^2, 1e-6..1e-4, bunch length 1e-4..1e-2 rad^2) where the enlarged spread stays positive",
 "misaligned cavities; the built-in cavity types (P32)",must_cover=['end','synchronous','energy','growth'])
prop('P14',"Data tables and cavity files are used exactly as written or refused",
 "A list of numbers cut into columns, and a text table with optional column names, blank lines, any white space and either line ending, give exactly their numbers in their rows and columns. A table with a malformed number or rows of different length, a list that does not fill its rows, and a cavity data file that cannot be parsed or lacks a field map, an element's length, strength or enough of its coefficients, or the limits or fit needed for the requested synchronous phase, is refused with an error. Nothing outside the data given is ever read or written.",
 ["inputs"],"every value in lists of up to 8 numbers for every number of columns from -2 to 5, every combination of layout and defect of small text tables, every length of every list of a cavity file",
 "the tests read four small tables and complete cavity files",
 ["src/util.cpp","src/rf_cavity.cpp"],[M("numeric_table::read, readvec","src/util.cpp"),M("ElementRFCavity::LoadCavityFile, GetCavPhase","src/rf_cavity.cpp")],
 ['p14.cpp'],"symbolic values in lists of 0..8 numbers; tables of 0..3 rows and 1..3 columns (text concrete: the number conversion is the C++ library's); cavity files with one list of 0..26 entries or one of 7 other defects; three kinds of synchronous phase; symbolic beam energy for the complete file",
 "two defects at once; the text files of the built-in cavity types beyond numeric tables",must_cover=['end','list','ragged list','table','malformed table','accepted','refused'])
prop('P28',"Data files are used as they are now, not as they were when first read",
 "Whatever the history of reads, a table asked for is the one the file holds when it is asked for, also when the file has been replaced by one with an earlier time stamp, and also after a read during which the file was being replaced. A cavity that is configured again after its data file was replaced behaves exactly like a cavity first created from the present file.",
 ["histories","schedules"],"every assignment of time stamps to three file versions, every sequence of up to three reads of them with every point at which another process may replace the file",
 "the tests read unchanging files",
 ["src/util.cpp","src/rf_cavity.cpp","src/flame/rf_cavity.h"],[M("numeric_table_cache::fetch","src/util.cpp"),M("ElementRFCavity::LoadCavityFile, CavConfMap","src/rf_cavity.cpp"),M("ElementRFCavity::assign","src/flame/rf_cavity.h")],
 ['p28.cpp'],"three versions with distinct symbolic time stamps; 2..3 reads (4 in the thorough tier) with optional clearing, one replacement before or after either time stamp query of a read; cavity file replaced once by an earlier or later one, before or after use, element configured again once or twice or built anew, three kinds of synchronous phase; the file system is a stand-in that decides time stamps and contents",
 "replacements that keep the time stamp (second resolution); two replacements during one read; the text files of the built-in cavity types",must_cover=['table','race','cavity','used before'])
na('P13',"A printed lattice parses back to the same configuration",
 "Writing a configuration in lattice syntax and parsing that text gives a configuration with the same variables, elements, properties and beamline, for every configuration that came from a lattice.",
 ["inputs"],"every configuration with numbers, vectors, strings and nested beamlines","the tests print one small lattice",
 ["src/config.cpp"],[M("GLPSPrint","src/config.cpp")],
 "decimal formatting and reading of numbers happen inside the C++ library's streams (native code on concrete bytes), so a symbolic value cannot pass through; GLPSPrint writes six significant digits, so the property could only be stated up to that rounding")
na('P24',"Numeric flags accept exactly unsigned integers",
 "A flag parameter (HdipoleFitMode, ncurve, MpoleLevel, ...) given as number or text is accepted exactly when it is an unsigned integer, and then has that value.",
 ["inputs"],"every number and every text","tests use 0, 1 and 2",["src/moment.cpp"],[M("MomentElementBase::get_flag","src/moment.cpp")],
 "the decision is made by boost::lexical_cast through stream formatting, native code that only runs on concrete bytes; the solver never sees the value")
na('P27',"Any byte sequence is either parsed or refused with an error",
 "Parsing any text of any bytes terminates and either yields a configuration or reports an error with its line, without touching memory it does not own.",
 ["inputs"],"every byte sequence","the tests parse about twenty malformed texts",["src/glps.l","src/glps.y","src/glps_parser.cpp"],[M("scanner and parser","src/glps.l")],
 "the scanner is table driven: a symbolic byte becomes a symbolic index into the transition tables, and keyword text reaches std::string and std::map code in the C++ library; every byte position forks 256 ways within two characters. P11 and P12 cover generated texts with symbolic values instead")
na('P29',"Values written to HDF5 files read back unchanged",
 "Every named parameter of every recorded state is stored in the output file with its shape, and loading it gives the same numbers.",
 ["inputs","histories"],"every state and every sequence of records","the tests write one file",["src/h5writer.cpp","src/h5loader.cpp"],[M("H5StateWriter, H5Loader","src/h5writer.cpp")],
 "all storage is done by the HDF5 library, a large native library with file effects that cannot be encoded; only the index arithmetic (P10, P23) is decided")
na('P30',"The Python interface shows the same values as the C++ objects",
 "Attributes of Python states and machines read and write exactly the C++ state's parameters, with correct lifetimes and errors.",
 ["inputs","histories"],"every attribute and every sequence of accesses","the tests access some attributes",["python/flame"],[M("state and machine modules","python/flame")],
 "the bindings run inside CPython and NumPy (reference counting, buffer protocol), which cannot be executed symbolically here; the parameter descriptions they rely on are decided in P10")
na('P31',"The command line tool reports the simulation's results and errors",
 "The flame tool prints or stores the states the library computes for the given lattice and options, and exits non-zero with a message on any error.",
 ["inputs","configurations"],"every lattice and option set","only a few runs are scripted",["tools/cli.cpp"],[M("main","tools/cli.cpp")],
 "the tool consists of option parsing and text output in native libraries (boost::program_options, iostreams); there is no computation of its own for a solver to decide")
prop('P32',"Built-in cavity types apply the gain and map of their tables",
 "A cavity of a built-in type (0.041QWR, 0.085QWR, 0.29HWR, 0.53HWR) changes the energy and phase of the reference and of every charge state by the drift-kick sum over the type's field table, at the driven phase given by phi or, when a synchronous phase is given, found by the type's fit formula. Its transfer map is the product of the type's drifts, multipoles and two gaps in the order of the element table, longitudinally drift-kick-drift-kick-drift about the electrical centres. The transit time factors of gaps and multipoles are the type's fits within their range and the integrals over the tables outside it or when forced; strengths scale with the scaling factor, the charge and the speed reached, and multipoles above MpoleLevel are left out.",
 ["inputs","configurations"],"every scaling factor, phase, charge and beam phase in the stated ranges, for every type, multipole, level and source of transit time factors",
 "the tests compare two stored lattices at one operating point",
 ["src/rf_cavity.cpp","src/flame/rf_cavity.h"],[M("ElementRFCavity::TransFacts, TransitFacMultipole, GetCavMat, GetCavMatParams, GenCavMat2, GetCavBoost, calTransfac, GetCavPhase","src/rf_cavity.cpp")],
 ['p32.cpp'],"field and multipole tables of four points, element tables with two multipoles of one of seven types, two gaps and five drifts; scaling 0..1 with phase +-180 deg, or beam phases +-10 rad, or charge ratios 0.1..0.3 symbolic; one energy per type inside and one outside the range of the fits (0.041QWR inside the range: in quick only fixed values); sampling frequency equal to the cavity's; two charge states",
 "symbolic energies; the shipped field tables (hundreds of points); a multipole after the magnetic quadrupole of the same gap; emittance growth; misaligned cavities",must_cover=['end','synchronous'])
