COMMON = "Sound for the modelled C subset up to the stated assumptions (distinct argument arrays, exact real arithmetic); constructs outside the subset stop the check with an error rather than a verdict. "
CHECKS = {
 "C01": ("effect and race analysis of OpenMP regions by abstract interpretation of the C sources", COMMON + "Every access in every parallel region is enumerated and checked against thread-private, mode-disjoint, read-only or ordered; values may have no thread-dependent leaf."),
 "C02": ("heap typestate/ownership analysis by abstract interpretation of the C sources", COMMON + "Every allocation, release and access on every path of every library entry point is enumerated."),
 "C03": ("dependence and effect analysis from an arbitrary symbolic library state", COMMON + "Outputs may depend only on setter-owned cells, current inputs and modes; a computation leaves settings and foreign arrays unchanged."),
 "C15": ("dependence analysis of output columns on the mode index", COMMON + "Each column's value at a symbolic mode may contain the wavenumber of that mode only and no loop-carried leaf."),
 "C06": ("degree analysis by global value numbering of the columns extracted from the C sources", "Each column, extracted as a formula over the uninterpreted table, quadrature nodes and settings, is value-numbered at scaled points; a wrong degree is detected except with negligible probability per point, on every arm of every conditional. Growth factors on the Python side: abstract interpretation of the class methods."),
 "C07": ("dimensional analysis by global value numbering of the columns extracted from the C sources", "As C06, scaling the unit of length; both sides of every comparison must scale alike."),
 "C14": ("bounds proof obligations extracted by abstract interpretation, discharged by an integer prover", "Every access to an array in every function is turned into the obligation 0 <= index < size under the path condition, for symbolic sizes, and discharged by Fourier-Motzkin elimination over the integers; lookups are decided for all orderings of the wavenumber and the table nodes at small table lengths."),
 "C17": ("abstract interpretation of the Python layer with effect summaries of the C functions; aliasing and write-set analysis over object sessions", COMMON + "Bounded by the enumerated session shapes (interleavings of two objects per family, every public computation); array contents are uninterpreted."),
 "C18": ("abstract interpretation of the Python layer (copies, slices, padding) over case-complete ordered wavenumbers", COMMON + "Array lengths are small and concrete, contents are uninterpreted; every public class and every padding/slicing case listed in the evidence is covered."),
 "C16": ("case-complete abstract interpretation of the lookup functions with global value numbering", "Lookups are extracted for every position of the wavenumber relative to the nodes, at several table lengths, and compared with the specified formulas as rational functions/power laws."),
 "C13": ("global value numbering of the integrands extracted from the C sources against the definition; abstract interpretation of pk_interp", "Every component's integrand, extracted as a formula, is identified with the coefficient of its power of mu and f in the definition at momenta in general position (pairwise covering the orders of the loop momenta); the perturbation-theory kernels of the definition are generated from their recursion."),
 "C23": ("global value numbering of the integrands extracted from the C sources against kernels generated from their recursion", "Every column's integrand is extracted as a formula and identified with the perturbation-theory integrand at momenta in general position; the averages of F3 and F4 over directions are computed exactly or to 1e-12, the two-loop fit is compared within its accuracy."),
 "C11": ("global value numbering of the extracted special-case formulas against the limit of the formula they replace, by order of contact", "Every special range of the propagators, vertices and A components is numbered at a sequence of arguments approaching its limit and at both sides of its ends; the deviation must fall with the order of the first neglected term. Loss of digits is estimated by numbering the formula with 53-bit numbers."),
 "C24": ("abstract interpretation of the Python spectrum methods and global value numbering of the assembly extracted from the C sources", "Every spectrum method of every class, for each way of giving its arguments, is a formula over uninterpreted columns and is identified with the stated expression at points in general position; lengths of the columns are small and concrete."),
 "C25": ("abstract interpretation of the Python methods with value numbering against the definitions", "Every class and every listed way of giving the arguments, over uninterpreted columns of small lengths; comparisons of wavenumbers with limits are decided for each ordering."),
 "C26": ("abstract interpretation of the Python containers over symbolic columns", "Every class, columns set in several orders, wavenumbers in several orders, with elements that are not numbers at several places; array lengths are small and concrete, contents uninterpreted."),
 "C08": ("global value numbering of columns extracted from the C sources, under exchange of the two fields", "Each column is extracted as a formula for (a,b) and for (b,a) and the two are value-numbered at common points after exchanging the per-field columns; every pair of fields, every computation of two fields, and the Python classes."),
 "C09": ("global value numbering of columns extracted from the C sources in every build configuration", "Same-named columns of different computations, of alternative builds, and of the C and Python assemblies are value-numbered at common points; a difference is detected except with negligible probability per point."),
 "C19": ("global value numbering of the integrals extracted from the C sources against domain and measure", "The loop integrals are extracted with uninterpreted quadrature nodes and weights; the momenta reached, the cuts applied and the weight of each node are identified with the stated domain and its measure. How well the rule converges is not claimed."),
 "C10": ("global value numbering of kernels and vertices extracted from the C sources, under the symmetries and in the limits of perturbation theory", "Every kernel and vertex is extracted as a formula on all arms of its conditionals and value-numbered at wavevectors in general and special position and at their images; limits are decided by the order of contact at a sequence of wavevectors approaching them."),
 "C21": ("fixed points of the transfer functions of the root-finding loops, extracted by abstract interpretation, by value numbering against Gauss-Legendre", "The loops are extracted as equations between the values of their variables at successive iterations, for each number of nodes of a range and a symbolic interval; the fixed point reached from the starting values is solved for in 78-digit arithmetic. Rounding of the recursion in double precision is not bounded."),
 "C04": ("effect summaries of the setters by abstract interpretation of both layers, and dependence of every output column on every settings cell", "The cells each setting name writes, and their values, are computed exactly; what a cell governs is a may-dependence of the extracted columns, which may not exceed and must reach what the name says."),
 "C05": ("interface type checking between the Python call sites and the C prototypes, by abstract interpretation of the Python layer", COMMON + "Every call the Python layer makes over the enumerated sessions is compared argument by argument with the parsed C prototype and with the extents the C function accesses."),
 "C12": ("output-effect analysis of every entry point and call-graph reachability, by abstract interpretation of both layers", COMMON + "Every print, open and write on every path of every entry point is enumerated with its path condition; none may be reachable at the quiet level."),
}
NA = {
 "C20": "agreement with reference spectra to a stated accuracy is a numerical result over runtime quantities (quadrature error for an arbitrary spectrum); no static argument in reach bounds it",
 "C22": "finiteness for every positive spectrum depends on runtime magnitudes (overflow, cancellation, zero denominators at particular quadrature nodes) that no sound static bound in reach excludes",
}
