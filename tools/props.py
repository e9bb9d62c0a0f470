"""The table behind properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe), state=list(state)))


F, G, S = "glass/fields.py", "glass/galaxies.py", "glass/shells.py"

prop("C01", "Two-point spectra keep one standard order everywhere",
     "For any number of fields n, the pair (i, j) <-> position mapping of angular spectra in standard order (00, 11, 10, 22, 21, 20, ...) is one bijection shared by index lists, enumeration, lookup and reordering to and from HEALPix order, so a spectrum put in for fields (i, j) is the one found for (i, j) or (j, i) everywhere. "
     "Looking up a spectrum with a mode cut returns exactly lmax+1 values: the original ones, truncated or zero-padded. "
     "A number of spectra that is not n(n+1)/2 is refused with ValueError, and every valid one gives n.",
     ["inputs"], "all field counts n (hundreds, and large triangular numbers up to 1e12), all pairs, ragged lengths, any entry type, array backends",
     "tests look at n <= 5 and one hand-written list; an arithmetic slip can first appear at large n or for ragged/transposed access",
     [F], [("closed-form index arithmetic", f"{F}:getcl, enumerate_spectra, spectra_indices, nfields_from_nspectra"), ("reordering", f"{F}:glass_to_healpix_spectra, healpix_to_glass_spectra")],
     "reference-model monitor over unique-id spectra",
     "Every spectrum carries a unique id, so a misplaced one is seen directly; n enumerated up to 60 (quick) / 400 (thorough), large triangular numbers sampled.")

prop("C02", "Iterative sampling vectors reproduce the full covariance",
     "For any sequence of covariance rows (scalar or stacked, any correlation length, growing or truncated), the iterative normal sampler's scaling vectors, applied to independent standard normals, give variables whose covariance is exactly the given one for all pairs within the correlation length. "
     "This includes singular (semi-definite, zero-variance) matrices. "
     "Rows that are empty, of inconsistent stack shape, or not positive semi-definite are refused with ValueError.",
     ["inputs", "histories"], "random positive (semi-)definite matrices, banded correlation lengths 0..n, stacks, variable row lengths, zero-variance fields, backends",
     "tests check two or three hand-picked covariance matrices; the guarantee is about every row sequence and every truncation",
     [F], [("incremental Cholesky-like update", f"{F}:iternorm")],
     "offline history checker: linear-response reconstruction of the realised covariance",
     "Sampler history is replayed symbolically (each variate is a unit vector) and the realised covariance compared with the requested one; PSD rejection by independent eigen-decomposition with a margin.")

prop("C03", "Generated fields have exactly the requested covariance",
     "For any valid set of Gaussian spectra, resolution and correlation limit, the map sequence produced from independent standard normals is linear in them with pixel covariance equal to sum_l (2l+1)/4pi C_l^{ij} P_l(cos theta) for every pair of maps within the correlation limit, including missing, ragged and zero spectra. "
     "Maps are produced one at a time in field order, exactly one per field, and a map handed out is never altered by later iteration. "
     "Invalid input (wrong number of spectra, all empty, negative auto-spectrum) is refused with ValueError.",
     ["inputs", "histories"], "spectra sets, nside, lmax below and above the grid's band limit, ncorr 0..n-1, backends, interleaved consumption",
     "tests look at shapes and a few seeds; second moments over all pixels and field pairs are not sampled",
     [F, "glass/harmonics.py", "glass/healpix.py"], [("iterative correlated alm sampling", f"{F}:generate, _generate_grf, cls2cov"), ("alm layout", "glass/harmonics.py:multalm; glass/fields.py:_glass_to_healpix_alm")],
     "response-matrix monitor (probing RNG stub) against the analytic pixel covariance",
     "The covariance is obtained exactly, without sampling noise, by driving generate with unit-vector variates; sizes limited to nside <= 4 and about 45 modes per field so the full response matrix can be formed.",
     observe=["the RNG argument of generate", "the yielded maps"])

prop("C04", "Transformed fields follow their transformation and Gaussian variance",
     "Every generated field is its transformation applied to its own Gaussian map with that map's own exact variance sum_l (2l+1)/4pi C_l, so lognormal fields equal lambda*(exp(X - var/2) - 1), never fall below -lambda, and have zero mean and the analytic variance; squared-normal fields never fall below -lambda; normal fields are unchanged. "
     "Fields built for shells are one per shell, in order, with the lognormal shift evaluated at that shell's effective redshift.",
     ["inputs", "histories"], "mixed transformation lists, shifts, ragged spectra, ncorr, backends",
     "tests use one or two fields with unit shift and look at shapes; pairing of variance, transformation and map is never compared",
     [F, "glass/grf/_transformations.py"], [("zip of fields, maps and variances", f"{F}:generate"), ("transformations", "glass/grf/_transformations.py")],
     "differential monitor: same recorded variates through Gaussian and transformed runs",
     "The Gaussian map is observed from the same recorded variates; moments by Gauss-Hermite quadrature of the transformation itself.")

prop("C05", "Discretising spectra keeps only what was asked for",
     "Applying discretisation to spectra truncates each one at lmax, empties exactly the pairs more than ncorr apart, multiplies by the squared pixel window of nside (cutting at the window's end), leaves empty spectra empty and everything else bit-identical; with no options it changes nothing. "
     "The covariance matrix assembled from spectra is symmetric, holds C_l^{ij} at every l and pair, and zero where a spectrum is missing or shorter.",
     ["inputs", "configurations"], "all combinations of lmax, ncorr, nside and ragged/empty/missing spectra, backends",
     "the pixel-window branch needs data files that the offline tests cannot download; option combinations and ragged inputs are not covered",
     [F, "glass/healpix.py"], [("filtering", f"{F}:discretized_cls"), ("assembly", f"{F}:cov_from_spectra"), ("pixel window lookup", "glass/healpix.py:pixwin")],
     "reference-model monitor with a synthetic pixel-window data directory",
     "Pixel windows come from files written by the harness and served through the documented data-path variable, so the branch runs offline; equality is exact.")

prop("C06", "Effective spectra are the bilinear form of weights and spectra",
     "Effective angular spectra equal sum_ij w1_i w2_j C_l^{ij} for every weight-axis combination, with both cross terms of every pair counted, at exactly lmax+1 modes. "
     "Using one weight set gives a result symmetric in its two axis groups and identical to passing the set twice. "
     "Weights whose first axis does not match the number of fields are refused with ValueError.",
     ["inputs"], "numbers of fields, weight shapes with 0-3 extra axes, one or two sets, ragged spectra, lmax, backends",
     "tests check shapes and one numeric case; symmetric-fill shortcuts can go wrong for several axes",
     [F], [("pair loop with symmetric fill", f"{F}:effective_cls")],
     "reference-model monitor (dense einsum)", "Dense einsum over the fully symmetric spectrum cube is the oracle.")

prop("C07", "Regularised covariances are valid and as close as possible",
     "For every symmetric matrix or stack of matrices with any leading shape, regularisation returns a symmetric positive semi-definite result of the same shape: clipping keeps eigenvectors and raises eigenvalues below rtol times the largest (a never negative floor) to that floor; nearest-correlation returns unit diagonal and is the Frobenius-nearest correlation matrix, with a warning exactly if the iteration has not settled to the given tolerance in the given number of steps; the covariance version keeps the diagonal. "
     "Already valid matrices are unchanged and stacked matrices are treated independently. "
     "Regularised spectra apply exactly this at every mode number, keep the standard order, and have length lmax+1 (or the longest input); non-square input, negative diagonals and unknown methods are refused with ValueError.",
     ["inputs"], "indefinite, singular, negative-definite, zero-variance and already valid matrices, stacks with 0-3 leading axes, rtol values, backends",
     "tests use one 3x3 example and small random ones without a nearness oracle",
     ["glass/algorithm.py", F], [("eigenvalue clipping", "glass/algorithm.py:cov_clip"), ("alternating projections", "glass/algorithm.py:nearcorr, cov_nearest"), ("per-mode application", f"{F}:regularized_spectra, check_posdef_spectra")],
     "reference-model monitor with dual optimality certificate",
     "Nearness is judged by an independent projection solver and a dual certificate, only when glass reports convergence; tolerance 1e-5 relative.")

prop("C08", "Correlation transforms match the field transformations",
     "For every supported pair of transformations (normal, lognormal, squared normal, in either order), the transformed correlation equals the covariance of the two transformed unit Gaussian fields at that Gaussian correlation, the inverse transform undoes it, and the derivative transform is its derivative. "
     "Pairs without a rule raise NotImplementedError, and a rule offered by either member of the pair is used.",
     ["inputs"], "shift and shape parameters, correlations over the admissible range, scalar and array x, user-defined transformations, backends",
     "tests compare formulas with themselves at a few points; they do not tie corr() to the transformation that generate() applies",
     ["glass/grf/_core.py", "glass/grf/_transformations.py"], [("pairwise rules", "glass/grf/_transformations.py"), ("double dispatch", "glass/grf/_core.py:corr, icorr, dcorr")],
     "quadrature oracle over the transformation actually applied to fields", "Two-dimensional Gauss-Hermite quadrature of the callable itself; relative tolerance 1e-7 in the sampled range.")

prop("C09", "Gaussian spectra solvers are forward-consistent and truthful",
     "For any target spectrum and transformations, the returned Gaussian spectrum has the target's length, the returned realised spectrum is exactly what transforming it gives (with the requested padding), and the status bits are truthful: bit 1 is set exactly if every mode of the result meets the relative tolerance, bit 2 exactly if the last step changed no mode of the Gaussian spectrum by more than its relative tolerance, and the solver stops short of maxiter steps only when a criterion is met or no finite step exists. "
     "A fixed monopole is kept at its value and ignored in convergence; the iteration never makes the residual worse and always ends. Targets that some Gaussian spectrum of moderate variance realises are solved to the tolerance. "
     "Solving a set of spectra treats each pair with its own two transformations, keeps order and empty entries, and warns for exactly the pairs that did not converge.",
     ["inputs", "configurations"], "target spectra (steep, flat, noisy, infeasible), transformations, pad, initial, tolerances, maxiter, monopole",
     "tests check one well-behaved spectrum; infeasible targets, restarts and status values are not explored",
     ["glass/grf/_solver.py", "glass/grf/_core.py", F], [("damped Gauss-Newton iteration", "glass/grf/_solver.py:solve"), ("pairwise driver", f"{F}:solve_gaussian_spectra, compute_gaussian_spectra")],
     "forward-model monitor and logical step budget", "Forward model recomputed independently with transformcl; non-termination judged on executed-line counts, not on time.")

prop("C10", "Sampled galaxies conserve counts, positions and populations",
     "For every density, contrast map, bias model, visibility and extra-dimension shape, the expected count drawn from in each pixel is the clipped ngal*(1+b(delta))*vis*pixel area, and every drawn object is yielded exactly once, inside the pixel it was drawn for, at valid lon/lat, counted for exactly its own population. "
     "No batch exceeds the batch size unless it holds a single pixel, and neither batch size nor consumption pattern changes which pixels and populations receive how many objects. "
     "With monopole removal the expected full-sky mean equals ngal.",
     ["inputs", "histories", "configurations"], "maps up to thousands of pixels, batch sizes from 1 upward, empty pixels and populations, broadcasting of ngal/bias/vis/delta, backends",
     "tests use one nside, one batch and large-sample means; batch boundaries and population bookkeeping are combinatorial",
     ["glass/points.py", "glass/arraytools.py"], [("batched pixel sweep", "glass/points.py:positions_from_delta, _sample_galaxies_per_pixel"), ("broadcasting", "glass/arraytools.py:broadcast_leading_axes")],
     "conservation monitor over recorded Poisson draws and yielded batches",
     "A recording RNG captures the Poisson means and returns hostile counts; positions are mapped back to pixels with an independent healpy call.",
     observe=["poisson() calls on the RNG argument", "yielded batches"])

prop("C11", "Point positions are uniform and independently random",
     "Uniform positions are Poisson in number with mean ngal times the full-sky area per population, and uniform on the sphere (uniform longitude in [-180, 180], uniform sin latitude), with counts reported in the population's own slot. "
     "Positions within a pixel are uniform over the pixel and are drawn afresh for every pixel, batch, population and random generator state: no two draws reuse the same random offsets, and a different seed gives different offsets.",
     ["inputs", "histories"], "densities, array densities of any shape, seeds, batches, backends",
     "tests check shapes and mean counts; repeated use of the same random stream is invisible in means",
     ["glass/points.py", "glass/healpix.py"], [("sphere sampling", "glass/points.py:uniform_positions"), ("sub-pixel sampling", "glass/healpix.py:randang")],
     "statistical monitor (KS, chi-square, duplicate-offset detector) on recorded draws",
     "Distribution tests at p < 1e-9 with fixed seeds; offset reuse is detected exactly by inverting the in-pixel coordinates.")

prop("C12", "Displacements follow great circles and invert exactly",
     "Displacing a point by alpha moves it by an angular distance |alpha| along the great circle of bearing arg(alpha) (0 = north, +90 degrees = east), for every point, bearing and distance including the poles, zero, and distances beyond a half turn, complex or two-component input, and any broadcastable shape. "
     "The displacement computed between two positions is the shortest one and carries the first onto the second; the deprecated deflection of positions is the same map with east and west exchanged (displacing by the complex conjugate).",
     ["inputs"], "all positions including poles, antipodes and wrap-around, all bearings, distances 0..2pi, shapes, backends",
     "tests check four cardinal directions from the equator and a few random pairs",
     ["glass/points.py", "glass/lensing.py"], [("spherical trigonometry", "glass/points.py:displace, displacement"), ("mirrored variant", "glass/lensing.py:deflect")],
     "reference-model monitor (3-d rotation of unit vectors)", "The oracle rotates Cartesian vectors; agreement to 1e-9 rad (1e-7 near poles and antipodes).")

prop("C13", "Bias models and clustering weights equal their definitions",
     "The effective bias is the window-weighted mean of b(z) computed on the merged grid of both piecewise-linear functions, the linear model is b*delta and the log-linear one (1+delta)^b - 1 for every shape and backend. "
     "Position weights are densities normalised over shells (for each column separately) times bias, and sum to one over shells without bias.",
     ["inputs"], "grids, windows, densities and biases of any broadcastable shape, backends",
     "tests use one window and a few scalars", ["glass/points.py", "glass/arraytools.py"],
     [("definitions", "glass/points.py:effective_bias, linear_bias, loglinear_bias, position_weights")],
     "reference-model monitor (exact integrals of piecewise-linear products)", "Independent formulae in numpy, relative tolerance 1e-9.")

prop("C14", "Redshift samples follow their distribution and population order",
     "Redshifts drawn from a distribution lie inside the distribution's support and follow the cumulative trapezoidal integral of n(z) exactly as its inverse, independently for every population. "
     "Counts and leading axes of z and n(z) are broadcast, each population contributes exactly its count, and results are concatenated in index order. "
     "For labelled bins of any shape, every returned redshift follows the distribution of its own label at its own position.",
     ["inputs", "histories"], "grids (nonuniform, zero stretches), counts including zero, array counts, broadcast populations, label arrays of any shape/type/order, backends",
     "tests draw a handful of samples for one-dimensional inputs and check ranges", [G],
     [("inverse-cdf sampling", f"{G}:_draw_nz, redshifts, redshifts_from_nz"), ("label runs re-sorted to input order", f"{G}:redshifts_from_bins")],
     "disjoint-support monitor and inverse-cdf replay on a recording RNG",
     "Populations get disjoint supports so misplaced samples are visible individually; the cdf inversion is replayed from recorded uniforms and tested by KS.",
     observe=["uniform() draws of the RNG argument"])

prop("C15", "Galaxy shear combines the right map pixel with each ellipticity",
     "For every galaxy, the observed shear is the lensed ellipticity (eps + g)/(1 + g* eps) with reduced shear g = gamma/(1 - kappa) read from the map pixel containing that galaxy's position, or eps + gamma when not reduced; the result for a galaxy does not depend on the other galaxies, their order, or how many there are.",
     ["inputs", "histories"], "catalogues of 1 to tens of thousands of galaxies, maps of any nside, positions incl. wrap-around and poles, kappa and gamma values, backends",
     "tests use up to 100 galaxies; the lookup runs in blocks of 10 000", [G],
     [("blockwise map lookup", f"{G}:galaxy_shear")], "reference-model monitor with unique-valued maps",
     "Maps carry unique pixel values so any wrong pixel is visible; sizes straddle the block boundaries.")

prop("C16", "Photometric redshifts are Gaussian, bounded and aligned",
     "Photometric redshifts have the broadcast shape of their inputs, follow a normal distribution of mean z and width (1+z)*sigma_0 truncated to [lower, upper] (lower 0 by default), element by element: values within bounds are never re-drawn, rejected ones are re-drawn from their own distribution, and every returned value respects its own bounds. "
     "Inconsistent bounds are refused with ValueError.",
     ["inputs", "histories"], "scalars and arrays, scalar and per-galaxy bounds, one or both bounds, hostile random streams, backends",
     "tests look at the range of a few samples with a benign generator", [G], [("rejection sampling", f"{G}:gaussian_phz")],
     "hostile recording RNG: replay of the accept/reject history",
     "The RNG stub returns adversarial sequences so that each element is rejected a chosen number of times; the expected outcome is recomputed from the log.")

prop("C17", "Ellipticity samples follow their stated distributions",
     "Galaxy ellipticity samplers return exactly the requested number (summed over populations, concatenated in index order), always with modulus <= 1, isotropic phase and each population's own width: truncated Gaussian components, intrinsic-normal with per-component standard deviation sigma, and projected triaxial ellipsoids. "
     "The projected axis ratio equals that of the ellipsoid's silhouette for the drawn viewing direction and lies in (0, 1]. "
     "Widths outside the valid range are refused with ValueError.",
     ["inputs", "histories"], "counts, broadcast widths, sizes, extreme parameters, viewing directions, backends",
     "tests check moments loosely for one population", ["glass/shapes.py"],
     [("samplers", "glass/shapes.py:ellipticity_gaussian, ellipticity_intnorm, ellipticity_ryden04"), ("Binney projection", "glass/shapes.py:triaxial_axis_ratio")],
     "recording RNG with exact replay, geometric projection oracle, KS tests",
     "Axis ratios are compared with an independent 3-d projection per drawn direction; distributions by KS/variance tests at p < 1e-9 with fixed seeds.")

prop("C18", "Resampled shapes keep the intended variance relation",
     "Resampling shapes keeps every modulus up to one common non-negative factor, gives fresh isotropic orientations, and preserves the input's shape. "
     "With a shear variance given, the factor makes mean|eps|^2 after (approximately or to second order exactly) adding that shear equal to the input's; with variance zero or no variance the moduli are unchanged. "
     "Variances larger than the sample's, or giving both kinds, are refused with ValueError.",
     ["inputs"], "complex samples of any shape and magnitude, variances 0..max, backends",
     "tests compare one configuration statistically", ["glass/shapes.py"], [("closed-form rescaling", "glass/shapes.py:resample_shapes")],
     "invariant monitor on outputs (defining equation residual)", "The residual of the defining variance equation is evaluated on the returned moduli.")

prop("C19", "Window functions tile redshift as documented",
     "Top-hat windows cover each bin exactly with constant (weighted) value and effective redshift equal to the weighted mean; linear and cubic windows rise from 0 at one node to 1 at the next and fall to 0 at the third, have the middle node as effective redshift, and without weight neighbouring windows sum to one at every redshift between the first and last inner nodes. "
     "Each window's redshift grid is strictly increasing with spacing close to dz and contains its nodes; weights multiply the window pointwise. "
     "Bad grids are refused with ValueError and a grid not starting at zero gives a warning; distance, volume and density weights equal their cosmological definitions.",
     ["inputs", "configurations"], "uniform and irregular grids, dz coarse and fine relative to bins, weights, backends, cosmologies",
     "tests look at one grid with one dz", [S], [("window builders", f"{S}:tophat_windows, linear_windows, cubic_windows"), ("effective redshift", f"{S}:RadialWindow"), ("weights", f"{S}:DistanceWeight, VolumeWeight, DensityWeight")],
     "invariant monitor (partition of unity, exact node values)", "Windows are evaluated by interpolation on independent dense grids; tolerance set by the stated spacing.")

prop("C20", "Restricting and combining functions agree with the windows",
     "Restricting a function to a window returns the product of both piecewise-linear functions on the union of their grid points inside the window, zero where the function is not defined, for any leading axes of the function. "
     "Combining weights with windows evaluates sum_i weight_i * w_i(z)/integral(w_i) with zero outside each window, for any leading axes; partition by restriction equals the integral of the restricted function.",
     ["inputs"], "functions with 0-2 leading axes, windows partially or fully outside the function's grid, backends",
     "tests use one linear function and one or two windows", [S, "glass/arraytools.py"], [("merged grids", f"{S}:restrict, combine, partition_restrict")],
     "reference-model monitor", "Independent numpy model, relative tolerance 1e-9.")

prop("C21", "Partitions are optimal and preserve the total",
     "Partitioning functions over windows solves the documented weighted least-squares problem optimally (non-negative by default, unconstrained for lstsq), for any leading axes of the function independently, with the sum of weights close to the function's integral (to the tolerance requested), and weights exact for functions that are combinations of the windows. "
     "The non-negative solver returns a non-negative vector meeting the optimality conditions for every matrix and right-hand side, and malformed inputs or methods are refused with ValueError.",
     ["inputs"], "random and degenerate least-squares problems, functions with leading axes, overlapping windows, sum tolerances, backends",
     "tests partition one smooth function; the active-set solver's backtracking step is not exercised", [S, "glass/algorithm.py"],
     [("active-set non-negative least squares", "glass/algorithm.py:nnls"), ("constrained partition", f"{S}:partition_nnls, partition_lstsq, partition")],
     "KKT-certificate monitor and scipy reference", "Optimality is judged by KKT residuals and by the objective of scipy.optimize.nnls / lstsq; step budget catches endless loops.")

prop("C22", "Distributing redshifts assigns exactly one admissible shell",
     "Every redshift is assigned exactly one shell index with probability proportional to that shell's window at that redshift, or -1 exactly when no window covers it. "
     "The result has the input's shape and keeps element order for any number of redshifts.",
     ["inputs", "histories"], "redshift arrays of 0 to tens of thousands of elements and any shape, overlapping and gapped windows, backends, hostile multinomials",
     "tests use a few redshifts; work is done in blocks of 1000", [S], [("blockwise multinomial", f"{S}:distribute")],
     "recording multinomial RNG with exact probability oracle", "The probabilities offered to the RNG are recorded and compared with the window values; the returned index must match the recorded draw.",
     observe=["multinomial() calls of the RNG argument"])

prop("C23", "Redshift grids and bins cover exactly the requested range",
     "Uniform redshift and distance grids start at the minimum, increase strictly with the requested constant step (or number of steps), and end at the maximum: a step that divides the range never overshoots, otherwise only the last step reaches beyond. "
     "Fixed bins are contiguous and of the requested size or number; equal-density bins are contiguous, span the distribution and hold equal probability. "
     "Giving both or neither of step and number is refused with ValueError.",
     ["inputs"], "ranges and steps with awkward decimal representations, numbers of bins, distributions with zero stretches, cosmologies, backends",
     "tests check a couple of exactly representable steps", [S, "glass/observations.py"],
     [("uniform grids", f"{S}:redshift_grid, distance_grid"), ("bins", "glass/observations.py:fixed_zbins, equal_dens_zbins")],
     "invariant monitor over decimal step/range pairs (rational-arithmetic oracle)", "Divisibility is decided with exact fractions of the decimal inputs; equal density by independent integration.")

prop("C24", "Source distributions have the documented shape and norm",
     "Gaussian and Smail redshift distributions have the documented functional form for every broadcast parameter set, integrate (trapezoidally) to one or to the given norm, with parameter axes leading. "
     "Tomographic distributions with Gaussian error are the fraction of n(z) whose observed redshift falls in each bin, so contiguous bins from zero to infinity add up to n(z).",
     ["inputs"], "parameter arrays of any shape, grids, norms, bin sets, backends", "tests check means and shapes only",
     ["glass/observations.py"], [("distributions", "glass/observations.py:gaussian_nz, smail_nz, tomo_nz_gausserr")],
     "reference-model monitor (independent formulae)", "Independent scipy formulae at relative 1e-9.")

prop("C25", "Multi-plane convergence equals the lensing sum",
     "After adding any sequence of mass planes, the convergence equals sum_j (3/2) Omega_m x_j x_js/x_s (1+z_j)/E(z_j) w_j delta_j over the planes strictly before the source, for flat and curved cosmologies and any spacing; current plane, weight and redshift read back as given. "
     "A plane not beyond the last one is refused with ValueError and leaves the state usable and unchanged, and instances do not influence each other. "
     "The weight of a window is its integral over its value at the effective redshift, and the multi-plane matrix and weights are the same linear map written as a matrix applied to normalised weights.",
     ["inputs", "histories"], "plane sequences, refused planes in between, window and plane calls mixed, interleaved instances, cosmologies, backends",
     "tests use three planes and one cosmology; error paths in mid-sequence and interleaving are not sampled", ["glass/lensing.py"],
     [("two-term recurrence", "glass/lensing.py:MultiPlaneConvergence.add_plane"), ("window weight", "glass/lensing.py:MultiPlaneConvergence.add_window"), ("matrix form", "glass/lensing.py:multi_plane_matrix, multi_plane_weights")],
     "history checker against the direct lensing sum", "The direct sum with the cosmology's own distances is the oracle, after every step; curved cosmologies included.",
     state=[dict(name="kappa2/kappa3", meaning="two last convergence planes", where="glass/lensing.py:MultiPlaneConvergence")])

prop("C26", "Lensing maps are the spin harmonic transforms of convergence",
     "From a convergence map of any resolution and band limit, the potential, deflection and shear returned are the maps of -2/(l(l+1)), sqrt(l(l+1)) and sqrt((l-1)(l+2))/2 successive multipliers (shear additionally times the ratio of spin-2 to spin-0 pixel windows unless switched off), in that order and only the requested ones, independent of which others are requested. "
     "The dedicated shear function gives the same shear up to its component layout, and monopole and dipole never leak into shear.",
     ["inputs", "configurations"], "band-limited maps, nside, lmax, all option combinations, backends",
     "these functions need pixel weights/windows the offline tests cannot download, so most of their tests do not run here", ["glass/lensing.py", "glass/healpix.py"],
     [("multiplier chain", "glass/lensing.py:from_convergence, shear_from_convergence")],
     "reference-model monitor with synthetic healpix data files", "Pixel windows and (unit) weights are written by the harness and served by the documented data-path variable; oracle uses direct healpy spin transforms.")

prop("C27", "Files written can be read back unchanged",
     "Saving a list of angular power spectra (ragged, empty entries included) and loading it gives the same number of arrays with bit-identical values in the same order. "
     "A catalogue written in any sequence of chunks, as structured arrays or named columns, with or without extension name, contains exactly the concatenation of all rows in order, in one table, after leaving the context, and replaces an existing file.",
     ["inputs", "histories", "fault_sequences"], "ragged spectra, chunk sequences, dtypes, extension names, exceptions raised inside the context, overwriting",
     "tests write one or two chunks", ["glass/user.py"], [("split points", "glass/user.py:save_cls, load_cls"), ("append to table", "glass/user.py:write_catalog")],
     "round-trip monitor over write histories", "Rows carry unique ids; the file is read back with astropy, not with the writing library. All files live in a scratch directory.")

prop("C28", "The JAX generator is thread-safe and never repeats a key",
     "The JAX generator hands every draw, split and spawn a key of its own: whatever the interleaving of threads sharing one generator, the multiset of values drawn equals that of some sequential order of the same calls, with no value repeated and none lost. "
     "Children spawned and keys split are distinct from each other and from the parent's future draws, and equal seeds give equal sequences.",
     ["schedules", "histories"], "2-8 threads, mixed operations, injected delays inside key splitting",
     "tests are single-threaded", ["glass/jax.py"], [("lock around key split", "glass/jax.py:Generator")],
     "linearizability checker on recorded draws with injected delays", "Histories of uniquely identifiable draws are compared with the sequential model; delays are injected at jax.random.split.",
     observe=["return values of draws in all threads"], state=[dict(name="key", meaning="current PRNG key", where="glass/jax.py:Generator")])

prop("C29", "Random generators honour shapes, ranges and parameters",
     "For the array-backend generator wrapper and the JAX generator, every distribution method returns an array of the right namespace, of exactly the requested or broadcast shape, with values in its documented range, following the distribution given by its parameters element by element; an explicit shape that conflicts with array parameters is refused. "
     "Equal seeds give equal streams and consecutive draws differ.",
     ["inputs", "histories"], "methods, sizes, parameter arrays, dtypes, seeds, backends", "tests check shapes for a few calls",
     ["glass/rng.py", "glass/jax.py"], [("wrapper", "glass/rng.py:Generator"), ("numpy-like JAX API", "glass/jax.py:Generator")],
     "statistical and shape monitor", "Moment and KS tests at p < 1e-9 on fixed seeds; element-wise parameter alignment judged with well separated parameters.")

prop("C30", "Results are reproducible and free of hidden state",
     "Calling any sampling function twice with generators in equal state gives identical results, different states give different results, and no function reads or changes global random state or depends on what was called before. "
     "Without a generator, a fixed default seed is used, so repeated calls agree.",
     ["histories", "inputs"], "all sampling entry points, repeated and interleaved calls in arbitrary order, perturbed global random state, backends",
     "tests seed once per test and never interleave", ["glass/rng.py", F, "glass/points.py", G, "glass/shapes.py", S],
     [("explicit generator argument", "glass/rng.py:Generator")], "replay monitor over interleaved call histories",
     "Every catalogue entry is called in a fresh state, after other calls, and with disturbed global state; outputs must be bit-identical.")

prop("C31", "Inputs are never modified",
     "No public function modifies the arrays, lists, windows or spectra passed to it, and results returned earlier are not changed by later calls on other inputs, for every backend with mutable arrays.",
     ["inputs", "histories"], "all public array functions, contiguous and strided inputs, repeated use of the same input objects",
     "tests build fresh inputs each time and never look at them again", [F, "glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py", "glass/algorithm.py", "glass/arraytools.py"],
     [("copies before in-place arithmetic", "all modules")], "snapshot monitor around every call", "All array arguments are snapshotted (bytes) before and compared after each call, and returned arrays re-checked after later calls.")

prop("C32", "All array backends compute the same results",
     "Every public function that accepts arrays gives the same values, shapes and errors for NumPy, array-api-strict and JAX inputs (to rounding), returns arrays of the input's backend, and never fails on one backend for input that works on another it supports.",
     ["inputs", "configurations"], "catalogue of public functions with random inputs, three backends, integer/float scalars and arrays",
     "tests run the same tiny example per backend without comparing across backends", ["glass/_array_api_utils.py", F, "glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py"],
     [("namespace lookup and additions", "glass/_array_api_utils.py")], "differential monitor across backends", "NumPy results are the reference, random draws served from a common recorded stream.")

prop("C33", "Array helpers equal their mathematical definitions",
     "Broadcasting helpers line up the first or leading axes and keep values; interpolation over an axis of multi-dimensional data, cumulative and plain trapezoidal integrals, products on merged grids, gradients, index iteration, einsum, least squares and other namespace additions equal their reference definitions for every shape, axis and backend.",
     ["inputs"], "shapes up to 4 dimensions, axes, left/right/period options, non-overlapping grids, backends", "tests use 1-d and 2-d examples",
     ["glass/arraytools.py", "glass/_array_api_utils.py"], [("helpers", "glass/arraytools.py"), ("namespace additions", "glass/_array_api_utils.py:xp_additions")],
     "reference-model monitor (numpy/scipy)", "Independent numpy/scipy reference, relative tolerance 1e-9.")

prop("C34", "The HEALPix layer is faithful to HEALPix on every backend",
     "Pixel lookup, vectors, resolution conversion, harmonic transforms, pixel windows, strips, random in-pixel angles and rotations through the library's HEALPix layer equal the underlying HEALPix results for every option, return arrays of the requested backend, and use the configured data path. "
     "The visibility map is zero exactly on the requested galactic and ecliptic strips (to pixel interpolation) and one elsewhere.",
     ["inputs", "configurations"], "nside, lmax, options, backends, strips, data paths", "tests check shapes for one nside; data-dependent tests fail offline",
     ["glass/healpix.py", "glass/observations.py"], [("numpy fallback wrapper", "glass/_array_api_utils.py:numpy_fallback"), ("wrappers", "glass/healpix.py"), ("visibility", "glass/observations.py:vmap_galactic_ecliptic")],
     "differential monitor against healpy/healpix", "healpy and healpix are trusted; options are enumerated.")

prop("C35", "Deprecated entry points equal their replacements",
     "Every function that carries a deprecation notice in its signature (lognormal_gls, generate_gaussian, generate_lognormal) still works, warns with DeprecationWarning naming its replacement, attributed to the caller, on every call, and returns exactly what that replacement returns for the same arguments and random state. "
     "Functions deprecated in the documentation only (shear_from_convergence, deflect) agree with their replacements up to the documented convention.",
     ["inputs", "histories"], "arguments, shifts, ncorr, seeds, backends", "tests check the warning on one call",
     [F, "glass/shells.py", "glass/lensing.py"], [("thin wrappers", f"{F}:lognormal_gls, generate_gaussian, generate_lognormal")],
     "differential monitor", "Bit-identical comparison on the same seeded generator.")

prop("C36", "Number types never change the physics",
     "Inputs given as integers or in single precision lead to the results of the equal double-precision inputs, to the precision of the type given, or are refused with TypeError or ValueError; values are never silently truncated, wrapped or rounded to integers because one of several inputs has another number type.",
     ["inputs"], "every public array function, each argument and combination of arguments as integer, unsigned, 32-bit or 64-bit numbers, backends",
     "tests use double precision nearly everywhere", [F, "glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py", "glass/arraytools.py", "glass/algorithm.py"],
     [("result types taken from inputs", "all modules")], "differential monitor across number types",
     "The double-precision call on the same values is the reference; degenerate fits (nnls, least-squares partition) are excluded.")

prop("C37", "Simulations stream: memory and work do not pile up",
     "Samplers work on demand: a map, matter plane, covariance row, batch of points or population is computed when it is asked for and not before, endless sources can be consumed, and results handed out are released again, so that memory depends on the size of one item, the batch and the correlation length but not on how many items have been produced.",
     ["histories", "inputs"], "number of fields, shells, populations and batches, correlation length, stopping early, endless inputs, backends",
     "tests produce a few items and turn generators into lists", [F, "glass/points.py", "glass/lensing.py", "glass/user.py"],
     [("generators", f"{F}:generate, iternorm; glass/points.py:positions_from_delta, uniform_positions"), ("two-plane recurrence", "glass/lensing.py:MultiPlaneConvergence"), ("batching", "glass/points.py:_sample_number_galaxies")],
     "allocation and draw-history monitor (tracemalloc, weak references, recording sources)",
     "Peak memory of runs of different length is compared; every draw is attributed to the item being produced; yielded objects are watched with weak references.",
     observe=["allocated memory", "draws per item", "life of yielded objects"])

prop("C38", "The full pipeline realises the requested angular spectra",
     "Whatever target spectra, transformations, shifts, mode cut, correlation limit and resolution a user combines, transforming the targets to Gaussian spectra, discretising them and generating maps yields transformed maps whose exact mean is zero and whose exact pixel covariance, between all pairs of fields within the correlation limit, is the one of the target spectra at the retained modes.",
     ["inputs", "configurations"], "numbers of fields, transformations, target spectra, nside, lmax, ncorr, closed-form and iterative solution",
     "tests check each stage separately, never that the stages fit together", [F, "glass/grf/_core.py", "glass/grf/_solver.py", "glass/grf/_transformations.py"],
     [("stages", f"{F}:compute_gaussian_spectra, solve_gaussian_spectra, discretized_cls, generate")],
     "response-matrix monitor of the whole pipeline against the analytic covariance",
     "The Gaussian response is recovered exactly from transformed maps by probing variates, so no sampling noise; nside at most 4.",
     observe=["the RNG argument of generate", "the yielded maps"])

prop("C39", "Independent calls in several threads do not interfere",
     "Calls that share no generator and no mutable object give, whatever the interleaving of the threads that make them, exactly the results they give alone.",
     ["schedules", "inputs"], "2-4 threads, pairs of catalogue entries (the same function with different inputs and different functions), switches at any line of the library",
     "tests are single-threaded", [F, "glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py", "glass/healpix.py"],
     [("no module-level working state", "all modules")], "deterministic line-level thread scheduler and result comparison",
     "Threads are switched at seeded random lines inside the library; the context switches and distinct interleavings are counted.",
     observe=["line events in all threads", "results of all threads"])

prop("C40", "The package imports cleanly and stays extensible",
     "Importing the library changes no global state, prints nothing, writes no file and needs none of the optional packages (JAX, fitsio, array-api-strict); without them NumPy results are unchanged, and writing a catalogue is refused with ModuleNotFoundError. "
     "All public names exist and are the objects of the modules that define them. "
     "Every glass/ext directory on the search path, wherever it stands, contributes its modules to the glass.ext namespace, the first one on the path winning, while other directories and the library's own modules are unaffected.",
     ["configurations"], "search paths with extension directories, decoys and files in place of directories; missing optional packages; import orders",
     "tests run in one interpreter with everything installed and no extension", ["glass/ext/__init__.py", "glass/__init__.py", "glass/_array_api_utils.py", "glass/rng.py", "glass/user.py"],
     [("namespace loader", "glass/ext/__init__.py:_extend_path"), ("lazy imports of optional packages", "glass/_array_api_utils.py, glass/rng.py, glass/user.py")],
     "import monitor in fresh interpreters", "Each run starts a new interpreter with a prepared search path and reports what was imported from where and which global state changed.")

prop("C41", "Intrinsic-alignment convergence follows the NLA model",
     "The effective convergence of intrinsic alignments is the matter density contrast times -A C1 rho(z)/D(z) ((1+z)/(1+z0))^eta (L/L0)^beta, with the mean density of the cosmology (C1 = 5e-14/h^2 per solar mass and cubic Mpc, critical density and Omega_m today) and its growth factor at the effective redshift, "
     "for every amplitude, redshift, luminosity and exponent and any shape of map; each pixel depends on its own contrast only, in proportion, and the array type is kept.",
     ["inputs"], "contrast maps of any shape, amplitudes of either sign, optional parameters in any combination, cosmologies, backends",
     "no test calls it", [G], [("NLA factor", f"{G}:_kappa_ia_nla")], "collaborator monitor and reference formula",
     "The cosmology is a recording stand-in with an oscillating growth factor; redshifts asked for are observed.",
     observe=["calls to the cosmology", "the returned map"])

prop("C42", "Faults surface unchanged and leave nothing behind",
     "Whatever goes wrong during a call - a draw of the generator, a transformation, bias model, weight function, cosmology or other callable of the user raises, the call is interrupted at any point, an iterator is abandoned, closed or thrown into, the body of a catalogue context fails - the exception reaches the caller as the very object that was raised, "
     "no process-wide setting (floating-point error handling, warning filters, print options, environment, working directory, global random state) and no argument is left changed, and later independent calls give the results they would have given.",
     ["crash_points", "inputs", "histories"], "every executed line of a call, every draw of the generator, every use of every user callable, any kind of exception, any item of an iterator",
     "tests have no faults beyond invalid arguments", [F, "glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py", "glass/user.py", "glass/grf/_core.py", "glass/grf/_solver.py", "glass/algorithm.py"],
     [("no working state between calls", "all modules"), ("catalogue context", "glass/user.py:write_catalog"), ("calls into user code", "glass/grf/_core.py, glass/points.py, glass/shells.py, glass/lensing.py")],
     "fault injection (line-level interruption and failing collaborators) with a monitor of settings, arguments and later results",
     "A line monitor raises at a chosen line event of the call; collaborators raise at a chosen use; lines which establish or undo a protection are never interrupted.",
     observe=["line events", "process-wide settings", "argument bytes", "results after the fault"])

prop("C43", "Object-by-object results do not depend on the company",
     "Operations that treat galaxies, pixels, redshifts, modes, populations or functions one by one give each of them the same result whether it is processed alone, in pieces, in another order or together with many thousands of others.",
     ["inputs", "configurations"], "operation, number of objects from one to several 100 000, how they are split and ordered, backends",
     "tests process a handful of objects at once", ["glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py", "glass/arraytools.py", "glass/healpix.py", "glass/algorithm.py", "glass/grf/_transformations.py", F],
     [("vectorised operations", "all modules")], "metamorphic monitor (whole, pieces, permutation, single objects)",
     "The same objects are processed in different company and the results compared object by object; about 30 operations.")

prop("C44", "Simulated catalogues reproduce the source distribution they were asked for",
     "Running the documented simulation loop - distributing a source distribution over shells, sampling positions, redshifts, photometric redshifts and ellipticities, shearing, binning and writing a catalogue - gives a catalogue whose numbers per shell and population, true redshifts, photometric redshifts and tomographic bins follow the source distribution, the density, visibility and redshift error asked for, "
     "with every column referring to the same galaxy; equal-density bins hold equal shares, and the weights of the sources give their mean convergence and clustering.",
     ["inputs", "configurations"], "windows, weights, redshift grids, source distributions with and without populations, partition methods, visibility, batch size, bins, seeds",
     "tests check the stages one at a time, never that they fit together", ["glass/points.py", G, "glass/shapes.py", S, "glass/lensing.py", "glass/observations.py", "glass/user.py"],
     [("stages", f"{S}:partition; glass/points.py:positions_from_delta, position_weights; {G}:redshifts, gaussian_phz, galaxy_shear; glass/observations.py:equal_dens_zbins, tomo_nz_gausserr; glass/user.py:write_catalog; glass/lensing.py:multi_plane_weights")],
     "end-to-end statistical monitor of the catalogue on disk", "Numbers are tested against the Poisson law, redshifts with Kolmogorov-Smirnov tests, bins with exact error-function probabilities; p < 1e-9.",
     observe=["the catalogue read back from disk", "the galaxies as they are made"])
