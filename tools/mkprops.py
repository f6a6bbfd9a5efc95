#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

SPEC = ["src/spectrum_1loop.c", "src/spectrum_2loop.c", "src/spectrum_A_1loop.c", "src/spectrum_A_2loop.c", "src/spectrum_B.c", "src/spectrum_bias_1loop.c"]
INTEG = ["src/gamma1_1loop.c", "src/gamma1_2loop.c", "src/gamma2d_1loop.c", "src/gamma2t_1loop.c", "src/calc_pkcorr_from_gamma1.c", "src/calc_pkcorr_from_gamma2.c", "src/calc_pkcorr_from_gamma3.c", "src/calc_pkcorr_from_A_1loop.c", "src/calc_pkcorr_from_A_2loop_I.c", "src/calc_pkcorr_from_A_2loop_II_III.c", "src/calc_pkcorr_from_B.c", "src/calc_pkcorr_from_bias_1loop.c", "src/bispectrum_1loop.c"]
PY = "pyregpt/pyregpt.py"

prop("C01", "Results do not depend on the number of threads or their interleaving",
     "Every computed term is the same, bit for bit, whatever number of threads is requested and however the threads are scheduled: no two threads touch the same memory with one of them writing unless the accesses are ordered, no thread reads working data it has not itself prepared, and no value is accumulated across modes in a thread-dependent order.",
     ["schedules", "configurations"], "all thread counts, all assignments of modes to threads and all interleavings of the threads of every computation",
     "The tests run each computation once with the default number of threads on an idle machine; a race or a schedule dependence shows only under particular interleavings, and the 2-loop ones cannot run at all here.",
     SPEC + INTEG + ["src/common.c"],
     [("thread-private quadrature work areas, initialised inside the parallel region and refreshed for every mode", "init_*/free_*/calc_* of the integrator files"), ("work-sharing loop that writes one slot per mode", "run_terms_* in the spectrum files")],
     [("gauss_legendre_q / gauss_legendre_mu", "per-thread quadrature nodes, weights and tabulated power", "integrator files")])
prop("C02", "Scratch memory is owned: freed exactly once, never used after, never leaked",
     "Each computation releases, exactly once and before it returns, every block of memory it allocates, on every path and in every thread; it never reads or writes a block after releasing it, never keeps a released block for a later computation, and never releases memory that belongs to the caller.",
     ["histories", "configurations", "schedules"], "all sequences of API calls, all requested spectra, settings and thread counts",
     "Leaks and stale pointers are silent: the tests only compare numbers, in one order of calls, and never call the computations that fall back on internally computed spectra.",
     SPEC + INTEG + ["src/common.c"],
     [("paired init_*/free_* in the parallel regions", "run_terms_* in the spectrum files"), ("internally computed 1-loop spectra and their release", "src/spectrum_B.c")])
prop("C03", "A computation depends only on current inputs and settings, not on history",
     "The outcome of a computation is a function of the linear spectrum, output wavenumbers and explicit settings in force when it runs: running any computation before it, or running it twice, changes neither its results nor any setting, and switching to another linear spectrum leaves no trace of the previous one.",
     ["histories"], "all sequences of settings, linear-spectrum changes and computations",
     "Each test runs its computation in one fixed order; carried-over state needs a particular earlier call (another spectrum, another family, a second run) to show.",
     SPEC + INTEG + ["src/common.c", "src/regpt.c", PY],
     [("every run re-initialises its work area", "init_* functions"), ("settings are only written by the set_* entry points", "set_precision/set_running_uvcutoff/set_verbosity")])
prop("C04", "Each setting reaches what it names, and 'all' and clear() reach every setting",
     "Every documented precision, interpolation or cutoff setting can be set by name and changes exactly the parameters of the computation it names; group names change every member of the group; the reset value restores the default; and after clear() every setting of the library equals its initial value.",
     ["configurations", "histories"], "all setting names, all values, all sequences of settings followed by a reset",
     "The tests set a few integration sizes by name and never check which parameters changed, nor that a reset undoes them; there are some thirty settings and any sequence of them is possible.",
     [PY, "src/common.c"] + SPEC + INTEG,
     [("Python dispatch of setting names", "PyRegPT.set_precision, set_running_uvcutoff, clear"), ("setters with 'unset' sentinels and defaults", "set_precision/set_interpol in src/common.c and the set_precision_* entry points")])
prop("C05", "The Python layer and the compiled library agree on every call",
     "For every call Python makes into the library, the function exists, the number, order, width and kind of arguments and of the result agree with what the library declares, strings are passed as bytes, arrays are contiguous of the library's floating-point type and at least as long as what the library reads or writes for the size passed, and they stay alive as long as the library uses them.",
     ["inputs", "configurations"], "all Python-level calls, all array sizes",
     "A wrong width, a swapped column or an array one element short often gives right-looking numbers on one platform and one size; the tests use a handful of sizes and never call several entry points.",
     [PY, "src/common.h", "src/define.h"] + SPEC,
     [("argtypes/restype declarations", "methods of PyRegPT and its subclasses"), ("ordered column list matched to the parameter order", "FIELDS vs set_terms_*")])
prop("C06", "Terms and spectra scale with the declared power of the linear spectrum",
     "Multiplying the linear spectrum by a constant multiplies each computed 1-loop, 2-loop and bias term, and the 1-loop A and B terms, by the power of that constant declared in the scale tables; and evaluating a spectrum or term with a growth factor D equals evaluating it without, from terms rescaled by D or from a linear spectrum multiplied by D squared.",
     ["inputs"], "all linear spectra, all wavenumbers, all growth factors",
     "The tests check growth rescaling for two classes with one spectrum and one factor; a wrong exponent in any other term or method goes unseen.",
     [PY] + SPEC + INTEG,
     [("SCALE tables", "classes of pyregpt.py"), ("scale_factor / damping_factor decorators and pk(Dgrowth)", "pyregpt.py")])
prop("C07", "Results do not depend on the unit of length",
     "If all wavenumbers (inputs, output modes and integration range) are expressed in another unit of length and the linear spectrum with them, every 1-loop and 2-loop term, bias term, and 1-loop A and B term changes by the fixed power of the unit that its physical dimension dictates, and nothing else changes.",
     ["inputs", "configurations"], "all linear spectra, wavenumbers, integration ranges and units",
     "The tests use one unit (h/Mpc) throughout, so an added, lost or misplaced power of a wavenumber, or a threshold compared with a dimensional quantity, is invisible to them away from the reference values.",
     SPEC + INTEG + ["src/kernels.c", "src/common.c", PY],
     [("dimensionless kernels of ratios times k^3 prefactors", "integrator files")])
prop("C08", "Cross spectra are symmetric in the two fields and consistent with auto ones",
     "Requesting the spectrum of fields (a,b) or (b,a) gives the same spectrum, with the two sets of propagator terms exchanged and all other terms identical; when the two fields are the same the two sets of propagator terms are equal, and every term is the one the general two-field formula gives.",
     ["inputs", "configurations"], "all field pairs, wavenumbers, spectra and settings, at 1 and 2 loops",
     "The tests never compare (a,b) with (b,a); the auto case takes shortcuts of its own whose agreement with the general formula is not tested.",
     ["src/spectrum_1loop.c", "src/spectrum_2loop.c", "src/calc_pkcorr_from_gamma1.c", "src/calc_pkcorr_from_gamma2.c", "src/calc_pkcorr_from_gamma3.c", PY],
     [("a==b shortcuts next to the general branch", "calc_pk_gamma1_2loop, kernel_pk_gamma2_*, run_terms_spectrum_1loop"), ("assembly of the spectrum from its terms", "pk() of Spectrum1Loop and Spectrum2Loop")])
prop("C09", "The same quantity computed by two parts of the library is the same",
     "The terms shared by the 1-loop and 2-loop spectra are identical; the tree-level linear power and velocity-dispersion columns of every family are the linear-spectrum table lookup and the running dispersion of the output modes; the spectrum the library assembles internally is the one the Python classes assemble from the same terms; and the alternative build options integrate the same functions.",
     ["inputs", "configurations"], "all wavenumbers, spectra, fields and settings, all build options",
     "Each quantity is compared by the tests, if at all, with a reference at one setting; the internal assembly and the alternative builds are never exercised.",
     SPEC + ["src/calc_pkcorr_from_gamma1.c", "src/calc_pkcorr_from_gamma2.c", "src/calc_pkcorr_from_gamma3.c", "src/calc_pkcorr_from_A_2loop_II_III.c", "src/kernels.c", PY],
     [("duplicated formulas", "spectrum_1loop()/spectrum_2loop() in C, pk() in Python, both kernel variants of the Cuba versions, kernels.c variants")])
prop("C10", "Kernels have the symmetries and limits momentum conservation imposes",
     "The second- and third-order kernels of both fields are unchanged when their wavevectors are permuted, rotated or all rescaled, vanish with the square of the total wavevector, reduce to those of one-dimensional motion for collinear wavevectors (the n-th power of the sum over n! times the product), and factor out a soft wavevector as Galilean invariance requires; the loop-corrected three-point vertices are unchanged when their first two wavenumbers are exchanged and vanish with the square of the third; the quadratic-bias terms vanish for a mode much larger than the internal ones.",
     ["inputs"], "all wavevectors",
     "The tests compare integrated spectra with references at percent level and no test looks at a kernel; a wrong coefficient in an unusual regime moves the integral less than the tolerance.",
     ["src/kernels.c", "src/gamma2d_1loop.c", "src/gamma2t_1loop.c", "src/calc_pkcorr_from_gamma2.c", "src/spectrum_bias_1loop.c"],
     [("explicit symmetric formulas", "F2*, F3_sym, kernel_gamma2{d,t}_*, kernel_b22/b2s2/bs22")])
prop("C11", "Formulas that replace another near a singular point or in a limit agree with it",
     "Wherever a kernel switches to another formula near a removable singularity or for very small or very large arguments, the replacement is the leading part of the expansion of the formula it replaces: every coefficient it retains agrees with the expansion, and it is used where it is accurate and the general formula would lose its digits.",
     ["inputs"], "all arguments of the kernels around every switching point",
     "The replacement formulas act on narrow ranges of the integration variable, so a wrong coefficient changes the integrals below the tolerance of the tests.",
     ["src/gamma1_1loop.c", "src/gamma1_2loop.c", "src/gamma2d_1loop.c", "src/gamma2t_1loop.c", "src/calc_pkcorr_from_A_1loop.c", "src/kernels.c"],
     [("limits of the vertices", "kernel_gamma2d, kernel_gamma2t and their lowk, highk, elongate, coll, reg3rd forms"), ("series next to closed forms", "kernel_ff, kernel_gg, beta, kernel_a_1loop, betafunc, big_beta")])
prop("C12", "Quiet means quiet, and only the user changes verbosity",
     "When verbosity is 'quiet' no call of the library writes anything to the terminal or to a file, messages are written only at 'info' and debug files only at 'debug'; verbosity changes only when the user sets it or resets all settings, never as a side effect of a computation, a copy, a slice or a new object, and never alters a result.",
     ["histories", "configurations"], "all verbosity levels and all sequences of API calls",
     "The verbosity test makes two calls and looks at no output; most computations are never run at each level.",
     [PY, "src/regpt.c", "src/common.c"] + SPEC,
     [("guards on the verbosity level around every message", "spectrum files, regpt.c"), ("verbosity set at construction", "PyRegPT.__init__")])
prop("C13", "RSD corrections are the components of their definition, recombined in mu and f",
     "The interpolated A and B corrections are the sum over their components of the power of mu squared and of f that component carries times the component interpolated linearly in wavenumber, with the caller's growth factor and values outside the range; and the integrand of each component is exactly the part of that power of mu and f in the definition of the correction: for B the product of the two velocity-density and velocity-velocity factors, for A the projection of the redshift-space bispectrum, at tree level, with loop-corrected propagators and vertices, and with its three-spectra loop terms.",
     ["inputs"], "all wavenumbers, angles, growth rates and growth factors",
     "The tests compare the interpolated sum with one reference at a few angles and one growth rate and default outside values; exchanging components of similar size or dropping a sign is not seen.",
     [PY, "src/spectrum_A_1loop.c", "src/spectrum_A_2loop.c", "src/spectrum_B.c", "src/calc_pkcorr_from_B.c", "src/calc_pkcorr_from_A_1loop.c", "src/calc_pkcorr_from_A_2loop_I.c", "src/calc_pkcorr_from_A_2loop_II_III.c", "src/bispectrum_1loop.c"],
     [("column assembly", "run_terms_A_2loop, run_terms_B"), ("pk_interp", "A1Loop, B1Loop")])
prop("C14", "No access outside an array",
     "Every read and write of a table, column or work array made by the library lies inside it, for every number of output modes, quadrature size, linear-spectrum length and wavenumber inside, outside or exactly at the ends of the table.",
     ["inputs", "configurations"], "all sizes, including empty and single-element outputs, and all wavenumbers",
     "An access just outside an array usually returns a plausible value; the tests check no sizes but a few and never the end points.",
     ["src/common.c", "src/regpt.c"] + SPEC + INTEG,
     [("size parameters passed along with arrays", "set_terms_*, init_gauss_legendre_*"), ("clamping of the interpolation window", "find_pk")])
prop("C15", "Each mode is computed independently of the other modes",
     "The value of every term at a wavenumber does not depend on which other wavenumbers are requested with it nor on their order: computing a subset, a permutation or a repetition of the modes gives the corresponding subset, permutation or repetition of the results.",
     ["inputs"], "all lists of wavenumbers, sorted or not, of any length",
     "The tests always request one sorted list; state carried from one mode to the next only shows with unsorted or repeated modes.",
     ["src/common.c"] + SPEC + INTEG,
     [("per-mode loops that refresh their work area", "run_terms_*, find_pk, calc_running_sigmad2")])
prop("C16", "The power-spectrum table is reproduced at its nodes and continued without jumps",
     "The interpolated linear spectrum equals the tabulated values at the tabulated wavenumbers under both interpolations; between two nodes linear interpolation is the chord and polynomial interpolation reproduces a parabola; below and above the table it continues a power law exactly and starts from the first and last tabulated values without a jump; and the running velocity dispersion is the integral of the tabulated spectrum up to the cutoff over six pi squared.",
     ["inputs"], "all tables with at least three nodes and all wavenumbers",
     "The tests compare the lookup with an external interpolation on one table with a tolerance and do not evaluate it at the nodes or just outside the ends.",
     ["src/common.c"],
     [("table lookup", "find_pk, interpol_lin, interpol_poly, extrapol_pk_lowk, extrapol_pk_highk"), ("running dispersion", "calc_running_sigmad2")])
prop("C17", "Objects do not interfere",
     "Running a computation through an object fills that object's own columns, from the linear spectrum given to that object, and leaves every other object's columns and linear spectrum unchanged, in whatever order objects were created, prepared and run. The columns and linear spectrum of an object are stored apart from the arrays its user gave and from one another, so that changing one changes no other.",
     ["histories"], "all interleavings of the method calls of any number of objects",
     "The tests create one object of a family at a time and run it right after preparing it.",
     [PY, "src/regpt.c"] + SPEC,
     [("buffers and linear spectrum handed to the library", "set_terms, set_spectrum_lin, run_terms of each class")])
prop("C18", "Copies, slices and padding preserve every column",
     "A copy or deep copy of a container or calculator has the same columns and linear spectrum as the original, with shared and independent storage respectively; selecting modes applies to every column; padding extends every column along the wavenumber axis only, placing the new wavenumbers and given values outside the old range and leaving existing entries untouched, whether or not there is something to add at either end.",
     ["inputs", "histories"], "all containers, column shapes, selections and paddings",
     "One test copies one object; slicing and padding are not tested with two-dimensional columns, nor with nothing to add at one end.",
     [PY],
     [("container methods", "Terms.copy, deepcopy, __getitem__, pad_k, zeros, reshape and overrides")])
prop("C19", "Loop integrals cover the whole momentum region once, with the right measure",
     "In every two-dimensional loop integral both internal momenta stay inside the configured integration range; where the symmetry between the two internal momenta is used the half of the region with the first momentum the smaller is covered and weighted twice, otherwise the whole region once; and the nodes are weighted by the volume element of the integration variable.",
     ["inputs", "configurations"], "all output wavenumbers and integration ranges",
     "A wrong factor or boundary in one family is compensated or hidden at the few wavenumbers and the one range the references were made with; families without reference are not checked.",
     ["src/calc_pkcorr_from_gamma2.c", "src/calc_pkcorr_from_gamma3.c", "src/calc_pkcorr_from_A_1loop.c", "src/calc_pkcorr_from_A_2loop_I.c", "src/calc_pkcorr_from_A_2loop_II_III.c", "src/calc_pkcorr_from_B.c", "src/calc_pkcorr_from_bias_1loop.c", "src/common.c"],
     [("angular range per radial node", "set_mu_range"), ("logarithmic radial nodes and rescaled angular nodes", "init/update_gauss_legendre_*")])
prop("C20", "Computed spectra agree with reference perturbation theory to the stated accuracy",
     "Every term agrees, to the accuracy set by the precision settings, with the value of the regularised perturbation-theory integral it stands for.",
     ["inputs", "configurations"], "all spectra, wavenumbers and settings",
     "References exist for one cosmology and a few wavenumbers only.",
     SPEC + INTEG, [("quadrature and Monte-Carlo integration of the kernels", "integrator files")])
prop("C21", "Quadrature nodes and weights are those of Gauss-Legendre for any size",
     "For every number of nodes and every interval, the nodes, in increasing order, and weights handed out by the library and by its Python method are those of Gauss-Legendre quadrature on that interval, up to the rounding of the recursion: each search for a root converges to the root it is for, and stops only where nodes and weights are accurate.",
     ["inputs", "configurations"], "all intervals; each number of nodes analysed (odd, even, 1, large)",
     "The test compares two sizes with a reference implementation.",
     ["src/common.c", "pyregpt/pyregpt.py"], [("Newton iteration", "nodes_weights_gauss_legendre")])
prop("C22", "Finite inputs give finite outputs",
     "For every positive linear spectrum and positive wavenumbers, all terms are finite numbers.",
     ["inputs"], "all positive spectra and wavenumbers",
     "The tests use one smooth spectrum; cancellations and divisions near coinciding momenta depend on runtime values.",
     INTEG + ["src/kernels.c"], [("special branches near singular points", "kernels")])
prop("C23", "Columns are the integrals of perturbation theory",
     "The columns of the power-spectrum and bias computations are, before quadrature, the integrals of standard perturbation theory: propagators from the F3 kernel averaged over the loop momentum, two-mode terms from products of F2 and of its one-loop correction (F4), the three-mode term from F3 with each set of momenta counted once, the two-loop propagators from F5 to the accuracy of the published fit, and the bias terms and sigma3 as defined by McDonald and Roy and Saito et al., each for the pair of fields of its column and with the factors of two pi of the measure.",
     ["inputs"], "all internal momenta away from the special arms near coinciding or very unequal momenta (C11)",
     "The tests compare integrals over one spectrum at a few wavenumbers with references to a loose tolerance; a wrong coefficient of a sub-dominant term, a wrong pair of fields for auto spectra, or terms that have no reference are not seen.",
     ["src/gamma1_1loop.c", "src/gamma1_2loop.c", "src/gamma2d_1loop.c", "src/gamma2t_1loop.c", "src/kernels.c", "src/calc_pkcorr_from_gamma2.c", "src/calc_pkcorr_from_gamma3.c", "src/calc_pkcorr_from_bias_1loop.c", "src/spectrum_1loop.c", "src/spectrum_2loop.c", "src/spectrum_bias_1loop.c"],
     [("kernels", "kernel_ff, kernel_gg, beta, one_loop_Gamma2*, F2, F3"), ("integrators", "calc_pkcorr_from_*")])
prop("C24", "Spectra are assembled from their columns as the resummation prescribes",
     "The spectrum returned by each Python class, for any growth factor and displacement dispersion given or not, is the resummed expression of the object's columns (regularised propagators times the linear spectrum, plus the damped mode-coupling terms; plain or damped columns times the power of the growth factor for bias, A and B), without changing the columns; the spectra assembled inside the C library are the same expression; the 2-loop B term is computed from 1-loop delta-theta and theta-theta spectra so assembled, from the object's own linear spectrum; and rescaling multiplies each column by its declared power.",
     ["inputs"], "all columns, wavenumbers, growth factors and dispersions",
     "The tests compare two classes with references at growth one; the damping given by the user, the growth factor of the damped bias terms and the C assembly have no test.",
     [PY, "src/spectrum_1loop.c", "src/spectrum_2loop.c", "src/spectrum_B.c"],
     [("assembly", "pk, pk_* and *_damp methods, scale_factor, damping_factor, spectrum_1loop(), spectrum_2loop(), run_spectrum_1loop"), ("spectra handed to B", "B1Loop.run_terms, B2Loop.run_terms")])
prop("C25", "Derived quantities follow their definitions",
     "The displacement dispersion, the dispersion in spheres of any radius and of 8 Mpc/h, of any spectrum with any of its arguments, are the trapezoidal integrals of that spectrum over the wavenumbers held with the top-hat window; the no-wiggle transfer function is that of Eisenstein and Hu for the given or default cosmology, in either parametrisation, and the no-wiggle spectrum has the requested tilt and amplitude, or that of the spectrum given at the first wavenumber; the shot-noise mask is one between its limits and falls off as a Gaussian outside. None changes the columns it is computed from.",
     ["inputs"], "all spectra, wavenumbers, radii, cosmological parameters and limits",
     "The tests compute one no-wiggle spectrum and one dispersion without looking at the arguments; the limits of the mask and the alternative parametrisation have no test.",
     [PY],
     [("integrals", "Terms.sigmav, sigmar, sigma8"), ("no-wiggle spectrum", "SpectrumNoWiggle.transfer, run_terms"), ("mask", "Bias1Loop.shotnoise")])
prop("C26", "Columns are listed, created and cleaned as declared, whatever their history",
     "For every container and calculator class, iterating over it and tolist give the declared columns that are set, in the declared order, whatever the order they were set in and whatever other columns the user added; as_dict gives all or exactly the chosen columns; membership, size and removal agree with the columns held, and a missing column raises KeyError; set_terms creates exactly the declared columns for the given wavenumbers in the given order, repeated or not, replacing what was there, and after a computation they have their declared shape; nan_to_zero sets to zero the elements that are not numbers, in every declared column, and no other.",
     ["inputs", "histories"], "all classes, orders in which columns are set, wavenumber orders, places of elements that are not numbers",
     "The tests set columns once in the declared order on rising wavenumbers and have no element that is not a number; arrays handed to the library by position make an order mistake silent.",
     [PY],
     [("containers", "Terms.__iter__, tolist, as_dict, pop, __contains__, __getitem__, zeros, reshape, nan_to_zero"), ("calculators", "set_terms and run_terms of the subclasses of PyRegPT")])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
