FIXED = [
 ("C02", "cf46d4a", "run_spectrum_1loop left the 1-loop terms bound to freed scratch memory: running B, then the 1-loop spectrum of an earlier object, wrote to it"),
 ("C02", "4caa953", "run_terms_B kept its freed internal spectra as the spectra of the next B computation"),
 ("C13", "69e4ec0", "set_spectra_B tested b against the wrong flag, so the spectrum given as (delta, theta) was not the one used for P_delta_theta"),
 ("C01", "69b91e8", "calc_pkcorr_from_B: every thread wrote the shared input spectra while others read them"),
 ("C14", "ab79dcb", "print_k read k[0] and k[-1] of an empty array of modes"),
 ("C15", "53a4747", "find_pk started the search of each mode where the previous one was found: unsorted wavenumbers got the wrong interval"),
 ("C14", "b02222b", "linear find_pk read one element past the table at its last wavenumber"),
 ("C16", "6930f6e", "low-k extrapolation started from the second tabulated value"),
 ("C15", "100867d", "calc_running_sigmad2 carried its partial integral over to the following, smaller wavenumbers"),
 ("C03", "191fbfb", "the automatic range of gamma3 and A II, III replaced the setting and stuck to the first linear spectrum"),
 ("C07", "b56bf74", "F3 compared wavevectors to an absolute length: the kernel vanished when wavenumbers were given in a large unit"),
 ("C06", "3456ef4", "sigma3sq is linear in the linear spectrum but was declared quadratic: rescaled bias terms had the wrong power of the growth"),
 ("C14", "55b0f2e", "debug output of the B spectra read P_theta_theta past its end when it was shorter than P_delta_theta"),
 ("C04", "c817e87", "set_precision('all_pklin') failed on undefined names, 'all' and clear() left the A_1loop and pk_lin settings and the A, B cutoffs unchanged, 'spectrum_1loop_q' failed after setting its members"),
 ("C12", "0ac54eb", "a new object, a copy or a slice set the verbosity chosen by the user back to 'info'"),
 ("C18", "a2abb8b", "pad_k with nothing to add at the end overwrote the whole columns; it failed on 2-D columns and modes other than 'constant', and changed existing pk_lin and sigmad2"),
 ("C18", "ff0cf88", "deepcopy of a calculator without linear spectrum failed"),
 ("C18", "3ba8f8b", "SpectrumNoWiggle.set_terms failed: zeros used an attribute the class does not have"),
 ("C13", "f6b1f26", "pk_interp of the B terms ignored the caller's left and right values"),
 ("C05", "a17782a", "set_spectrum_lin passed strided arrays to the library as if they were contiguous"),
 ("C17", "916790d", "a computation filled the columns of the object set last, from the linear spectrum set last"),
 ("C11", "8e2dc60", "gamma1_2loop: the cubic coefficient of the series of beta for the velocity near very unequal momenta had the wrong sign"),
 ("C05", "f83f4e4", "find_pk_lin passed the interpolation (int) as size_t"),
]
KNOWN = []
