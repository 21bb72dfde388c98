"""Per-property texts of MANIFEST.json."""
_P = "runtime monitoring of the real library under generated workloads: "
TECH = {
    "C01": "sanitizers: AddressSanitizer+UBSan build of the C library under "
           "random programs of public calls (valid, hostile and failing), "
           "crash and report monitors",
    "C02": _P+"every harmonic mode is propagated through real fields, the "
           "observed mean response and an independent 3j-sum oracle are "
           "compared online with the returned matrix",
    "C03": _P+"couple/decouple/window results compared online with linear "
           "algebra on the returned matrix",
    "C04": _P+"every binning result and accessor compared online with an "
           "independent table of the bands",
    "C05": _P+"write/read/continue histories of all four workspace kinds, "
           "original and reloaded object compared after every operation; "
           "file-corruption fault injection",
    "C06": "ThreadSanitizer on the real parallel regions (instrumented "
           "OpenMP runtime), schedule perturbation (thread counts, chunk "
           "permutation, delays) and heap-fill perturbation with online "
           "comparison of all results",
    "C07": _P+"stored maps, coefficients and template residuals compared "
           "online with reference transforms and least squares",
    "C08": _P+"purified coefficients compared online with a reference "
           "derivative expansion and pure-mode skies",
    "C09": _P+"spectra and one-call estimates compared online with their "
           "definition and the explicit sequence of steps",
    "C10": _P+"every mode is propagated through templated and plain fields; "
           "observed ensemble-mean difference compared with the bias",
    "C11": _P+"covariances compared online with an independent contraction "
           "and with symmetry/transposition/binning relations",
    "C12": _P+"catalogue coefficients compared online with direct sums of "
           "reference spherical harmonics, and noise terms with moments",
    "C13": _P+"every harmonic mode is propagated through anisotropically "
           "weighted fields and the observed mean response compared online "
           "with the returned matrix",
    "C14": _P+"the same sky stored in different orders and geometries, "
           "results compared with each other and reference transforms",
    "C15": _P+"apodised masks compared pixel by pixel with a brute-force "
           "distance and profile oracle",
    "C16": _P+"seeded simulation histories; transfer of single multipoles, "
           "rank-deficient spectra and aggregate chi-square monitors",
    "C17": _P+"every Fourier mode is propagated through real flat fields "
           "and compared with the flat matrix; independent FFT oracle",
    "C18": _P+"flat deprojection, purification, bias and covariance compared "
           "online with independent FFT oracles and mode propagation",
    "C19": _P+"single-argument corruptions of valid calls; monitors for the "
           "exception and for unchanged results of bystander objects",
    "C20": _P+"argument checksums before/after, memory-layout variants and "
           "repeat queries after mutation of inputs and outputs",
    "C21": _P+"random update histories, after each step compared with a "
           "freshly built twin",
    "C22": "runtime monitoring of native heap and file-descriptor counts over "
           "repeated operations, with a leak-sanitizer cross-check",
    "C23": _P+"histories of setting changes, each result compared with the "
           "same call with explicit settings; back-ends compared",
    "C24": _P+"approximate matrices compared online with the documented "
           "extrapolation of exact matrices",
}
_N = "Held on the executions explored (counts in the evidence file); no " \
     "claim beyond them. "
NOTE = {i: _N for i in TECH}
NOTE.update({
    "C02": _N+"Trusts ducc0 transforms and 3j symbols, healpy map2alm.",
    "C06": _N+"OpenMP is run on a scheduling shim in the TSan and "
           "permutation runs; races inside ducc0, FFTW and healpy are not "
           "observed.",
    "C01": _N+"Only the C sources of the repository are instrumented.",
})
REASON = {}
