"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
SP = "spherepy/spherepy.py"
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext},
                  "why_tests_cant": why, "anchors": a})

P("C01", "Scalar synthesis equals the spherical-harmonic sum on every legal grid",
  "For every set of scalar coefficients and every legal grid size, the inverse scalar transform returns, at each grid point (theta_j = pi*j/(nrows-1), phi_k = 2*pi*k/ncols), the sum of c[n,m]*Y_nm(theta,phi) over all stored modes, Y_nm being the orthonormal spherical harmonics with Condon-Shortley phase, to double precision accuracy. When the grid size is left out, the smallest legal grid (nmax+2 rows, 2*mmax+2 columns) is used. The samples it holds for the continuation over the poles are the values of the same sum there.",
  ["inputs", "configurations"], "all coefficient values, all nmax >= mmax >= 0, all grids with nrows >= nmax+2 and even ncols >= 2*mmax+2, default sizes",
  "The tests compare a handful of fixed small patterns and check forward-after-inverse on a few sizes, which a self-consistent normalisation, phase or ordering error passes.",
  [SP, "spherepy/pysphi.py", "src/csphi.c"],
  [("sc_to_fc / fcvec_m_sc / ynunm / ynnm", "src/csphi.c"), ("ispht", SP)],
  ["ispht(c, nrows, ncols).array / .doublesphere"])

P("C02", "Scalar analysis projects the sampled pattern on each harmonic",
  "For every scalar pattern the forward scalar transform returns, for each requested mode, the inner product of Y_nm with the band-limited trigonometric interpolant of the (pole-continued) samples, to double precision accuracy. A coefficient's value does not depend on how many other modes are requested, and with sizes left out the largest supported set is returned (nmax = nrows-2, mmax = ncols/2-1, or mmax = nmax when only nmax is given).",
  ["inputs", "configurations"], "all sample values, all grids with at least 2 rows and even column count, all requested 0 <= mmax <= nmax the grid supports",
  "Tests only feed the transform patterns it produced itself; patterns that are not band limited, and requested sizes other than the full one, are hardly sampled.",
  [SP, "spherepy/ops.py", "spherepy/pysphi.py", "src/csphi.c", "src/kiss_fft.c"],
  [("spht", SP), ("fc_to_sc, bnm_fc, hkm_fc, SData, FindQ", "src/csphi.c"), ("mixed-radix FFT", "src/kiss_fft.c"), ("fix_even_row_data_fc, pad_rows_fdata, sin_fc", "spherepy/ops.py")],
  ["spht(p, nmax, mmax)[n, m]"])

P("C03", "Scalar transforms are inverse to each other at every size",
  "Transforming any scalar coefficients to a pattern on any legal grid and back returns the same coefficients to double precision accuracy, whatever nmax, mmax, the grid oversampling and the number of modes requested back; requested modes beyond the original ones come back as zero. Starting from a pattern that came from coefficients, going to coefficients and back on the same or another legal grid reproduces that pattern.",
  ["inputs", "configurations"], "all coefficients, all nmax >= mmax >= 0, all legal grids and all legal requested sizes",
  "The loop-over-sizes tests fix mmax and grid to a few combinations; the FFT length used internally depends on rows plus nmax, so each size runs other code.",
  [SP, "src/csphi.c", "src/kiss_fft.c", "spherepy/ops.py"],
  [("spht / ispht", SP), ("FindQ chooses the FFT length", "src/csphi.c"), ("radix 2,3,4,5 and generic butterflies", "src/kiss_fft.c")],
  ["spht(ispht(c)) against c"])

P("C04", "Vector synthesis equals the sum of vector spherical harmonics",
  "For every pair of vector coefficient sets and every legal grid, the inverse vector transform returns theta and phi components equal to sum a1*X1 + a2*X2, with X1 = L Y_nm/sqrt(n(n+1)) (L = -i r x grad) and X2 = -r grad Y_nm/sqrt(n(n+1)), at every grid point including the poles, to double precision accuracy. There is no monopole: n = 0 never contributes. Default sizes are nmax+2 rows and 2*mmax+2 columns.",
  ["inputs", "configurations"], "all coefficient values, all nmax >= mmax >= 0, all legal grids",
  "The tests only check round trips of the vector transforms, which a common sign, swap or normalisation error in both directions passes.",
  [SP, "spherepy/ops.py", "src/csphi.c"],
  [("vispht", SP), ("L_fc, divsin_fc, dtheta_fc, dphi_fc", "spherepy/ops.py"), ("sc_to_fc", "src/csphi.c")],
  ["vispht(vc, nrows, ncols).theta / .phi"])

P("C05", "Vector analysis projects a tangential pattern on the vector harmonics",
  "For every tangential pattern the forward vector transform returns, for each requested mode, the inner products of the vector harmonics X1 and X2 with the band-limited interpolant of the pole-continued theta and phi samples, to double precision accuracy. The value of a mode does not depend on how many other modes are requested, and the monopole entries are zero.",
  ["inputs", "configurations"], "all sample values, all grids with at least 2 rows and even column count, all requested sizes the grid supports",
  "Tests only feed patterns that the inverse produced, at a few sizes, and never a tangential field that is not band limited.",
  [SP, "spherepy/ops.py", "src/csphi.c"],
  [("vspht", SP), ("sinLdot_fc, sin_fc, dtheta_fc, dphi_fc", "spherepy/ops.py"), ("fc_to_sc", "src/csphi.c")],
  ["vspht(p, nmax, mmax)[n, m]"])

P("C06", "Vector transforms are inverse to each other at every size",
  "Transforming any vector coefficients to a tangential pattern on any legal grid and back returns both coefficient sets to double precision accuracy, with no leakage between the two sets or between modes, and zero for requested modes beyond the original ones. Starting from a pattern made from coefficients, coefficients and back reproduces the pattern.",
  ["inputs", "configurations"], "all coefficients, all nmax >= mmax >= 0, all legal grids and requested sizes",
  "A few sizes with random coefficients are tested; the full set of (nmax, mmax, nrows, ncols, requested size) is not.",
  [SP, "spherepy/ops.py", "src/csphi.c"],
  [("vspht / vispht", SP), ("L operators in the Fourier domain", "spherepy/ops.py")],
  ["vspht(vispht(vc)) against vc"])

P("C07", "Native and pure-Python transforms give the same answers",
  "Every transform computed through the native extension agrees to double precision accuracy with the same transform computed by the pure-Python routines, for every input and size; this holds for the public transforms with the extension switched off, for the explicitly pure-Python transforms, and for the low-level routines that exist in both versions. The low-level Fourier coefficients of the harmonics reproduce Y_nm when summed.",
  ["inputs", "configurations"], "all coefficients, patterns and Fourier data, all legal sizes, extension on and off",
  "The tests compare the two versions on a few fixed sizes and not for the vector transforms with the extension off.",
  [SP, "spherepy/pysphi.py", "src/csphi.c", "src/kiss_fft.c"],
  [("use_cext switch", SP), ("pysphi routines", "spherepy/pysphi.py"), ("csphi routines", "src/csphi.c")],
  ["spht vs spht_slow, ispht vs ispht_slow, csphi.* vs pysphi.*"])

P("C08", "Transforms are linear and respect the symmetries of the sphere",
  "All four transforms are linear over complex scalars. Shifting a pattern by whole columns multiplies coefficient (n,m) by exp(-i*m*shift angle); conjugating a scalar pattern maps c[n,m] to (-1)^m*conj(c[n,-m]); reflecting it in the equator multiplies c[n,m] by (-1)^(n+m). Evaluating the same coefficients on a finer grid reproduces the coarse-grid values at the common points.",
  ["inputs", "configurations"], "all coefficients and patterns, all complex scale factors, all whole-column shifts, all sizes and refinements",
  "No test relates two runs of a transform on related inputs.",
  [SP, "spherepy/ops.py", "src/csphi.c"],
  [("spht, ispht, vspht, vispht", SP)], ["outputs of two related transform calls"])

P("C09", "Power and angular power spectrum conserve energy",
  "The total power of a coefficient set is the sum of |c[n,m]|^2 over all modes, its angular power spectrum lists for each degree the sum over that degree's modes and adds up to the total power. Both equal the energy of the synthesised pattern: the integral of |f|^2 over the sphere equals the total power, and the power spectrum is unchanged by a rotation about the polar axis.",
  ["inputs"], "all coefficients, all nmax >= mmax >= 0",
  "The tests check the spectrum on one or two fixed coefficient sets.",
  [SP], [("angular_power_spectrum, power", SP)], ["c.power(), c.angular_power_spectrum()"])

P("C10", "Coefficient containers behave as a map from legal (n,m) to values",
  "A coefficient object behaves under every sequence of reads and writes - single modes, whole rows n, whole columns m, windows, truncations and copies - like a map from the legal modes (0<=n<=nmax, |m|<=min(n,mmax)) to complex values: a write changes exactly the addressed modes, a read returns the last value written in ascending n or m order, a truncation keeps exactly the modes with n up to the stop value. Any access outside the legal modes, with a wrong number of values, with something that is no number or with an unsupported slice is refused with an error and changes nothing. Indices are integers of any type, numpy's included. Vector coefficients hold two such maps and never a monopole.",
  ["histories", "inputs"], "all sequences of operations, all nmax >= mmax >= 0, all legal and illegal indices",
  "Tests index a few modes of fixed small sets; the storage layout depends on nmax and mmax and errors show only for particular (n, m, mmax) or in a later read.",
  [SP, "spherepy/pysphi.py"],
  [("ScalarCoefs.__getitem__/__setitem__, window, copy", SP), ("VectorCoefs.__getitem__/__setitem__", SP), ("mindx", "spherepy/pysphi.py")],
  ["c[n,m], c[n,:], c[:,m], c[0:n,:], window, copy"],
  [("coefficient vector", "m = 0 block, then -1, +1, -2, +2 ...", SP)])

P("C11", "Coefficient arithmetic is mode-by-mode arithmetic",
  "Adding, subtracting, multiplying and dividing coefficient sets of equal size, or a set and a number from either side, gives a new set of the same kind and size whose every mode is the result of that operation on the operands' modes (the monopole of vector sets stays zero); the operands keep their values, also with the augmented operators (a += b). Sets of different nmax or mmax, and other types, are refused with an error (a numpy array on the left combines its elements one by one, as numpy defines it), and dividing by the number zero raises ZeroDivisionError.",
  ["inputs"], "all coefficient values and sizes, all real and complex numbers on either side, all operators, matching and mismatching operands",
  "Tests use fixed sizes and all-ones or random operands with a single constant.",
  [SP], [("operator overloads of ScalarCoefs and VectorCoefs", SP)], ["c1 op c2, c op number, number op c"])

P("C12", "Pattern arithmetic is point-by-point arithmetic",
  "Adding, subtracting, multiplying and dividing patterns of equal shape, or a pattern and a number from either side, gives a new pattern of the same kind and shape whose samples, continuation included, are the result of that operation on the operands' samples; the operands keep their values, also with the augmented operators (a += b). Patterns of different shape, and other types, are refused with an error, dividing by the number zero raises ZeroDivisionError, and sums, differences and scalings of symmetric patterns stay symmetric so that they can be transformed.",
  ["inputs"], "all sample values and shapes, all real and complex numbers on either side, all operators, matching and mismatching operands",
  "Tests use fixed shapes and constants, and never transform the result.",
  [SP], [("operator overloads of ScalarPatternUniform and TransversePatternUniform", SP)], ["p1 op p2, p op number, number op p"])

P("C13", "Patterns hold the given samples and their continuation over the poles",
  "A pattern built from a samples array reports its shape and returns those samples unchanged away from the poles and at single-valued poles (other pole samples are replaced by the average with the opposite half-turn sample, or by that one alone where the sample is exactly zero, with a sign change for tangential components). Its continuation satisfies value(-theta, phi) = +/- value(theta, phi + pi) (plus for scalar, minus for tangential), so it always reports itself symmetric, while data that breaks that symmetry at any sample of any component reports its worst relative deviation and is not symmetric.",
  ["inputs"], "all sample values of any magnitude, all shapes with at least 2 rows and even columns, scalar and tangential, any location and component of asymmetry",
  "Tests build a few patterns of ordinary magnitude and never break the symmetry of just one component.",
  [SP], [("continue_sphere, double_sphere", SP), ("is_symmetric, single_val", SP)],
  ["array, cdata, theta, phi, doublesphere, shape, nrows, ncols, is_symmetric, single_val"])

P("C14", "Factories build exactly the object their arguments describe",
  "For every legal size and kind the zero, one and random factories return a new, independent object of the requested kind and size: all zeros, all ones, or random normal values with the requested mean and deviation, reproducible from the random seed, with the vector monopole zero. Every pattern a factory returns is in the symmetric form the transforms need. Odd column counts, mmax > nmax and unknown kinds are refused with an error.",
  ["inputs", "configurations"], "all sizes, all kinds, all means and deviations",
  "Tests construct a few sizes.",
  [SP], [("zeros_/ones_/random_ coefs and patt_uniform", SP)], ["the factories' results"])

P("C15", "Magnitudes, norms and comparisons follow their definitions",
  "For every coefficient set and pattern, scalar or vector, mag is the pointwise (mode-wise) magnitude, mag2 its square, vector magnitudes combine both components, and abs equals mag for scalars. The L2 norm is the root of the sum of squared magnitudes of all modes (or samples of the continued pattern) of all components, the LInf norm the largest magnitude (root-sum-square of the components' largest for vectors), and the relative comparison of two sets is sum|c1-c2|/sum|c1|; norms scale with the data and vanish only for zero.",
  ["inputs"], "all values and sizes, scalar and vector, coefficients and patterns",
  "Tests call these only on special data, mostly where the components coincide.",
  [SP], [("abs, mag, mag2, array, L2_coef, L2_patt, LInf_coef, LInf_patt, compare_relative", SP)], ["their return values"])

P("C16", "Saving and loading preserves patterns and coefficients exactly",
  "Saving scalar coefficients or a scalar pattern to a file and loading it returns an equal object: same sizes and exactly the same double values (up to the averaging of pole samples), for every finite value down to subnormal and short of overflow in that averaging, every size, and any file path the process can write. Saving replaces whatever the file held before and leaves the object unchanged; when not everything could be written, or there is no such file to load, an error is raised.",
  ["inputs", "histories"], "all finite values, all sizes, repeated saves to the same file",
  "There are no file tests at all in the suite; text formatting loses digits only for particular values.",
  ["spherepy/file.py"], [("save_patt, load_patt, save_coef, load_coef", "spherepy/file.py")],
  ["load_*(save_*(x)) against x"])

P("C17", "The text formats are read and written as documented",
  "A file in the documented text format - a header with the sizes, then row,column,real,imaginary lines for patterns and Fourier data, or real,imaginary lines in the storage order m = 0,-1,+1,-2,+2,... for coefficients, with the two vector sets separated by a break line and the directivity in the header - is loaded into the object it describes, whatever program wrote it, pattern lines in any order. Files written by the save routines are in that same format with full double precision.",
  ["inputs"], "all values, sizes, line orders and number spellings float() accepts; scalar patterns, tangential patterns in two files, Fourier data, scalar and vector coefficients",
  "No test loads or writes a file.",
  ["spherepy/file.py"], [("load_patt, load_vpatt, load_fdata, load_coef, load_vcoef, save_patt, save_coef", "spherepy/file.py")],
  ["objects returned by the loaders; text written by the savers"])

P("C18", "The verification routines report the true disagreement",
  "Each verification routine, given pattern, Fourier-data and coefficient files, returns the absolute and relative L2 and LInf differences between the file's data and what this library computes from the other file (the largest difference for Fourier data): zero up to rounding for consistent files, and the size of the discrepancy when the files differ.",
  ["inputs"], "all coefficient sets, grids and injected discrepancies, scalar and vector, forward and inverse",
  "No test runs these routines.",
  ["spherepy/verify.py", SP, "spherepy/file.py"],
  [("verify_spht, verify_ispht, verify_fdata, verify_vspht, verify_vispht", "spherepy/verify.py")],
  ["the tuples returned"])

P("C19", "Spherical Bessel and Hankel functions are accurate for all orders",
  "For every non-zero real argument, of any numeric type, and every number of orders, the spherical Bessel routines return j_n(x) and y_n(x) for n = 0..N-1 to near double precision (for j relative to the largest value in the returned vector, and to each value for n > |x|; for y relative to the modulus sqrt(j_n^2+y_n^2), while it is representable), the Hankel routines j_n + i*y_n and j_n - i*y_n, and the array forms one column per argument. The built-in diagnostics (sum rule, cross product) report errors of rounding size.",
  ["inputs"], "|x| from very small to 3000, of either sign, N from 1 to 1500, lists of arguments",
  "No test in the suite calls the Bessel routines; accuracy depends on n relative to x, zeros of the functions and recursion direction.",
  ["spherepy/sbessel.py"], [("sbesselj continued fraction and downward recursion", "spherepy/sbessel.py"), ("sbessely upward recursion", "spherepy/sbessel.py")],
  ["sbesselj, sbessely, sbesselh1, sbesselh2, *_array, sbesselj_sum, sbessel_test_cross_product"])

P("C20", "Single harmonics are sampled correctly on the grid",
  "For every degree n, order m and grid size the single-harmonic routine returns Y_nm(theta,phi), orthonormal with Condon-Shortley phase, at theta from 0 to pi in nrows points and phi from 0 to 2*pi - 2*pi/ncols in ncols points. Transforming these samples gives the unit coefficient at (n,m) and zero elsewhere.",
  ["inputs", "configurations"], "all 0 <= n <= 1000, |m| <= n, nrows >= 2, ncols >= 1",
  "Tests use it with a few n, m and fixed sizes.",
  [SP, "spherepy/pysphi.py"], [("sph_harmonic_tp, ynunm", SP)], ["sph_harmonic_tp(nrows, ncols, n, m)"])

P("C21", "Sizes are validated: legal ones work, illegal ones raise ValueError",
  "Each of the four transforms (scalar and vector, forward and inverse) accepts exactly the sizes its documentation allows: mmax <= nmax, nmax at most nrows-2 and mmax below ncols/2 when analysing, nrows >= nmax+2 and even ncols >= 2*mmax+2 when synthesising, and even column counts. A size is an integer of any type, numpy's included. Every other integer size, including negative ones and patterns too small to transform, is refused with ValueError before anything is computed, never with a crash or a silently wrong result, and coefficient objects refuse vectors of the wrong length.",
  ["inputs", "configurations"], "all integer sizes around and beyond the limits, all four transforms, constructors and factories",
  "Tests sample a few illegal sizes; the limits interact with defaults, and a missed limit is an out-of-bounds native access.",
  [SP, "src/csphi.c"], [("size checks at the top of spht, vspht, ispht, vispht, constructors and factories", SP)], ["ValueError or a result"])

P("C22", "The native code never touches memory it does not own and never leaks",
  "For every legal input and size the native routines read and write only inside their arrays and work space, never use uninitialised data or undefined arithmetic, leave their inputs unchanged where they are inputs, and release all memory they allocate, so that any number of transforms runs in bounded memory.",
  ["inputs", "histories"], "all legal sizes and data for the transforms and the directly exported native routines; long call sequences",
  "Ordinary test runs do not notice overreads, small overwrites or leaks; they need instrumentation and many sizes (the FFT factorisation changes with each).",
  ["src/csphi.c", "src/kiss_fft.c", "src/csphi_wrap.c"],
  [("malloc/free pairs in fc_to_sc, sc_to_fc", "src/csphi.c"), ("kiss_fft_alloc, in-place copies", "src/kiss_fft.c")],
  ["AddressSanitizer/UBSan reports, heap growth"])

P("C23", "Fourier-domain operators act as the operators they name",
  "On the Fourier coefficients of any band-limited field the operator routines give the Fourier coefficients of the named operation: multiplication and division by sin(theta), theta and phi derivatives, the L operator and sin(theta) times L-dot, row padding and removal of the unpaired row, for all row and column counts that are even (frequencies are stored 0, 1, ..., -2, -1, the unpaired one counting as negative; padding leaves the unpaired row out).",
  ["inputs", "configurations"], "all even sizes, all band-limited Fourier data",
  "Tests cover them only through the transforms or on one fixed array.",
  ["spherepy/ops.py"], [("sin_fc, divsin_fc, dtheta_fc, dphi_fc, sinLdot_fc, L_fc, pad_rows_fdata, fix_even_row_data_fc", "spherepy/ops.py")],
  ["the arrays they produce, evaluated as trigonometric sums"])

P("C24", "Every representation of a coefficient set shows every mode in its place",
  "The two-dimensional array form, the per-m and per-n list forms, the printed forms and the short triangular print of the first modes each show the value of every mode they cover at that mode's position (row n, column m+mmax; per-m list order 0,-1,+1,...; ascending m within each n) and zero or blank where no mode exists, for every size and value.",
  ["inputs"], "all values, all nmax >= mmax >= 0, scalar and vector",
  "Tests compare one or two fixed small sets, mostly with mmax = nmax.",
  [SP], [("_array_2d_repr, _reshape_n_vecs, _reshape_m_vecs, __repr__, __str__, pretty_coefs", SP)], ["their return values and printed text"])

P("C25", "Plots show the data they are given",
  "For every pattern the surface plots draw, at each grid direction, a point at distance equal to the pattern's magnitude, closing the seam in phi, in axes of equal ranges (to within the plotting library's margins) just large enough to hold the surface; the coefficient image draws each mode's magnitude in the cell centred on (m, n) and the coefficient line plot each m's magnitudes against n. Plotting changes neither the data nor fails for any shape or value.",
  ["inputs"], "all patterns and coefficient sets with finite values, scalar and vector patterns, all sizes",
  "No test draws anything.",
  ["spherepy/plot_sphere.py"], [("plot_sphere_mag, plot_mag_on_sphere, simple_plot, pcolor_coefs, plot_coefs", "spherepy/plot_sphere.py")],
  ["matplotlib artists of the figure drawn"])

P("C26", "Operations neither change their inputs nor depend on history",
  "Transforms, arithmetic, magnitudes, norms, power, saving, printing and slicing leave their arguments exactly as they were, and their results share no storage with them where a new object is promised (copies, truncations, sums, transforms). Any operation gives the same result whatever other operations, of whatever size and including failed ones, ran before it in the process, and none changes process-wide settings (numpy's error and print settings, warning filters, the environment, the locale, the random generators except by the random factories, the working directory).",
  ["histories"], "all sequences of public operations over a pool of objects",
  "Each test runs one operation on fresh objects; aliasing and leftover state need sequences.",
  [SP, "spherepy/ops.py", "src/csphi.c", "src/kiss_fft.c"],
  [("defensive copies in spht/vspht/vispht", SP), ("work arrays in native routines", "src/csphi.c")], ["pool snapshots before and after each operation; replays in a fresh order"])

P("C27", "Accuracy holds at high degree",
  "The transforms keep near double precision accuracy at every degree: synthesis of any mode matches Y_nm and the scalar and vector round trips return the coefficients with relative errors growing at most slowly with the degree, also for orders close to the degree and for very elongated grids.",
  ["inputs", "configurations"], "degrees up to about a thousand, any order, narrow and wide grids",
  "Tests stop near degree 50 to 100 for most routines; overflow, underflow and error growth show at high degree only.",
  [SP, "src/csphi.c", "src/kiss_fft.c"], [("ynnm/ynunm recursion", "src/csphi.c"), ("fc_to_sc", "src/csphi.c")],
  ["ispht / spht / vispht / vspht at high degree"])

P("C28", "Threads using the library at the same time do not disturb each other",
  "Transforms, arithmetic, norms, representations, the special functions and file access running at the same time in several threads of a process, each writing only to objects and files of its own and reading objects nobody writes to, give every thread the results it gets alone, whatever the interleaving.",
  ["schedules", "inputs"], "all interleavings at the granularity of library code lines, two or three threads, all sizes; not the global random generator, printing or pyplot",
  "Tests run in one thread.",
  [SP, "spherepy/ops.py", "spherepy/pysphi.py", "src/csphi.c"], [("work arrays of spht, vspht, ispht, vispht", SP), ("work arrays of the native routines", "src/csphi.c")],
  ["results of the operations of each thread"])

P("C29", "Results do not depend on the environment of the process",
  "Importing the package succeeds, and every operation except plotting gives the same result or the same error, in any environment of the process: plotting library present, absent or failing to import; any working directory, locale, hash seed, allocator, optimisation flag (-O, -OO), numpy print and (non-raising) error settings, garbage collector settings, and whichever module of the package is imported first. Without the plotting library each plotting routine raises ImportError naming it. Nothing is written to standard output that was not asked for.",
  ["configurations"], "all combinations of these settings with all operations of the public interface; how text is laid out may follow numpy's print options",
  "The suite runs in one environment.",
  ["spherepy/__init__.py", SP, "spherepy/plot_sphere.py", "spherepy/file.py"],
  [("optional import of the plotting routines", "spherepy/__init__.py"), ("matplotlibensure", "spherepy/plot_sphere.py"), ("pkg_info.json lookup", SP)],
  ["results of operations in a subprocess with the generated environment"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(PROPS))
