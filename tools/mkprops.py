#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to review)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state='', observe=''):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [{'name': state, 'meaning': 'state that the property ranges over',
                               'where': files[0]}] if state else [],
                    'mechanism': [{'name': mechanism, 'where': ', '.join(files)}],
                    'observe_at': [observe or 'return values and errors of the public API at its boundary'],
                    'hook_needed': None},
    })


prop('C01', 'Steering vectors follow the plane-wave / spherical-wave geometry',
     'For an unperturbed array of isotropic scalar sensors, entry (m,k) of the steering matrix is exp(j*phi) where, for far-field sources, phi is 2*pi/wavelength times the projection of sensor m on the unit direction of source k (1D: broadside angle from the y-axis inside the xy-plane; 2D: azimuth from the x-axis and elevation from the xy-plane), and, for near-field sources, phi is 2*pi/wavelength times (distance from the source to the first sensor minus distance to sensor m). '
     'This holds for 1D, 2D and 3D arrays, for every supported unit, wavelength, sensor layout, number of sources and numeric type of the coordinates. '
     'The phase delay matrix offered by a source placement contains exactly these phases.',
     ['inputs', 'configurations'], 'all source types, units, array dimensions, sensor coordinates, wavelengths and source locations including the limits of their ranges',
     'The tests compare a handful of fixed matrices for a few arrays, one wavelength and friendly angles.',
     ['doatools/model/sources.py', 'doatools/model/arrays.py'],
     'phase_delay_matrix per source type and its use in ArrayDesign.steering_matrix',
     observe='return values of steering_matrix and phase_delay_matrix')
prop('C02', 'Derivative matrices are the true derivatives of the steering matrix',
     'Whenever derivatives are requested for 1D far-field sources, the derivative returned for each source is the true derivative of the (possibly perturbed) steering vector with respect to that source location expressed in the unit of the source placement (radians, degrees or sine), and the steering matrix returned along with it is the same as the one obtained without asking for derivatives. '
     'This holds for 1D, 2D and 3D arrays and under every combination of location errors, gain errors, phase errors and mutual coupling and every perturbation filter. '
     'When derivatives are not supported (2D far-field sources, near-field sources, non-isotropic or vector sensors) the request is refused with an error instead of returning something.',
     ['inputs', 'configurations'], 'all 1D far-field placements, units, arrays, perturbation sets and filters',
     'The tests check derivatives of two fixed arrays and never under perturbations.',
     ['doatools/model/sources.py', 'doatools/model/arrays.py', 'doatools/model/perturbations.py'],
     'derivatives branch of phase_delay_matrix, chain rule in steering_matrix and perturb_steering_matrix')
prop('C03', 'Array imperfections are applied as modelled, selectable and copy-safe',
     'With perturbations present, the steering matrix equals C * diag(exp(j*phase errors)) * diag(1 + gain errors) * A0(nominal locations + location errors), each factor appearing only if that imperfection is present and selected (all / only those known a priori / none), with the non-location factors multiplied in the order in which the array lists its perturbations and with location errors allowed to have fewer or more dimensions than the array. '
     'Perturbations given as a dictionary, as a list, at construction or by deriving a perturbed copy mean the same; a derived copy replaces perturbations of the same kind and keeps the others, a perturbation-free copy has none, the original array is left untouched, and the queries about perturbations, parameters, actual locations and actual dimension agree with what is applied. '
     'Perturbations whose size does not match the array, duplicated kinds in one list and unknown filters are refused.',
     ['inputs', 'configurations', 'histories'], 'all perturbation sets (kinds, known flags, orders, dimensions, dtypes), all filters and all sequences of copy operations',
     'The tests use three fixed perturbation sets on one array and no copy sequences.',
     ['doatools/model/arrays.py', 'doatools/model/perturbations.py'],
     'perturbation pipeline of steering_matrix, get_perturbed_copy, get_perturbation_free_copy, actual_element_locations',
     state='the perturbation table of an array design')
prop('C04', 'Non-isotropic and vector sensors weight the steering tensor by their response',
     'For arrays of non-isotropic or vector sensors each entry of the steering tensor is the sensor response for the range, azimuth and elevation of that source (seen from each actual sensor position for near-field sources, infinite range for far-field ones) multiplied by the phase term, of shape L x M x K for L-output sensors when not flattened. '
     'Flattening stacks the L outputs into an LM x K matrix with the output index varying slowest, the reported output size of the array is L*M, and scalar isotropic elements respond with ones. '
     'Gain, phase and coupling perturbations still apply to scalar non-isotropic arrays and are refused for vector-sensor arrays, and response queries with inconsistent shapes or unsupported polarization data are refused.',
     ['inputs', 'configurations'], 'all response functions, output sizes, source types, array dimensions and location errors',
     'One test covers a vector sensor on one array with far-field sources.',
     ['doatools/model/array_elements.py', 'doatools/model/arrays.py', 'doatools/model/sources.py', 'doatools/utils/conversion.py'],
     'calc_spatial_response, calc_spherical_coords and the tensor branch of steering_matrix')
prop('C05', 'Array designs place their sensors as defined',
     'Every array design places its sensors exactly as its definition says: uniform linear arrays at 0,1,...,n-1; nested arrays at 0..N1-1 and the multiples of (N1+1) minus 1; co-prime arrays at the multiples of the two co-prime numbers for the M and 2M variants (smaller number first, non-co-prime pairs refused); minimum-redundancy arrays with exactly n sensors (n from 1 to 20) covering every lag up to their aperture; rectangular arrays on the m x n lattice; circular arrays equally spaced on the circle; grid-based arrays at index combinations of their basis vectors or spacings. '
     'Sizes, dimensions, element indices, spacings, bases, shapes, radii, parameters, names, elements and perturbations reported by the design agree with the arguments it was created with, for every design. '
     'Malformed layouts are refused.',
     ['inputs', 'configurations'], 'all constructor parameters of all array designs, spacings and bases',
     'The tests check one or two instances of each design, and only a subset of the accessors.',
     ['doatools/model/arrays.py', 'doatools/utils/math.py'], 'constructors and accessors of the array design classes')
prop('C06', 'Source placements keep, convert and index locations faithfully',
     'A source placement reports the locations and unit it was created with; converting units gives a new placement of the same physical directions (and converting back restores the values), locations outside the valid range of the unit and malformed inputs are refused with a value error, and the valid range is always accepted. '
     'Selecting by slice, list, index array or mask gives an independent placement of the same kind and unit with the selected sources in the given order, while a scalar index gives the location itself; the original never changes. '
     'Spherical coordinates relative to any reference points are the geometrically correct ranges, azimuths and elevations, and building a placement from complex roots returns sorted angles whose phase progression over the given spacing matches the roots.',
     ['inputs', 'histories'], 'all placements, units, indices and reference points, including range limits',
     'The tests use a few fixed lists and never check copies, round trips or range limits in bulk.',
     ['doatools/model/sources.py', 'doatools/utils/conversion.py'], 'SourcePlacement classes, convert_angles, cart2spherical, from_z')
prop('C07', 'Difference coarray bookkeeping is exact',
     'For every 1D grid-based array the weight function counts, for every integer difference, exactly the ordered sensor pairs with that difference, lists the unique differences in ascending order, and maps each difference to exactly the positions in the column-stacked covariance matrix where sensor i minus sensor j has that difference. '
     'The size of the central uniform segment is the largest hole-free run around zero (with and without the negative part), and the selection matrix averages exactly those positions for each lag of that run. '
     'Pairwise and unique location differences (up to the tolerance) are complete and correct in any dimension, and arrays that are not 1D grid-based are refused.',
     ['inputs'], 'all integer index sets (any order, offset, duplicates, holes), all physical 1D arrays, all location sets for differences',
     'The tests check two small arrays.',
     ['doatools/model/coarray.py', 'doatools/utils/math.py'], 'WeightFunction1D, compute_location_differences, unique_rows')
prop('C08', 'Coarray covariance augmentation matches its definition',
     'For any covariance matrix of a 1D grid-based array, direct augmentation returns the Hermitian-consistent Toeplitz matrix whose (i,j) entry is the average of all covariance entries with sensor difference i-j, and spatial-smoothing augmentation returns the average of the outer products of the sliding virtual-array vectors, i.e. the direct-augmented matrix times its conjugate transpose divided by its size. '
     'The output size equals the number of non-negative lags of the central uniform segment and the virtual uniform array has that many sensors with the spacing of the physical array. '
     'For a model-consistent covariance of uncorrelated sources, direct augmentation equals the exact covariance of the virtual array, and covariances of wrong shape or unknown methods are refused.',
     ['inputs', 'configurations'], 'all arrays and covariance matrices (complex, real, indefinite, non-contiguous)',
     'The tests check two arrays with a model covariance.',
     ['doatools/estimation/coarray.py', 'doatools/model/coarray.py'], 'CoarrayACMBuilder1D.transform')
prop('C09', 'Simulated signals and snapshots follow the declared model',
     'Snapshots equal the (fully perturbed) steering matrix times the emitted source signal plus the emitted noise, one column per snapshot, and the covariance returned with them is Y*Y^H/N of exactly those snapshots. '
     'The stochastic generator emits zero-mean circularly-symmetric complex Gaussian samples, independent over time and between calls, with exactly the declared covariance (scalar, vector of variances or full Hermitian, possibly singular matrix), and the random-phase generator emits samples of exactly the declared amplitudes with independent uniform phases. '
     'Outputs have shape dimension x samples, are reproducible from the global random seed, and inconsistent dimensions are refused.',
     ['inputs', 'configurations', 'histories'], 'all covariances, amplitudes, dimensions, sample counts, arrays with imperfections and sequences of calls',
     'One test checks one covariance with loose tolerance; the snapshot function is untested with perturbations or user generators.',
     ['doatools/model/signals.py', 'doatools/model/snapshots.py', 'doatools/utils/math.py'], 'emit of the generators, get_narrowband_snapshots, randcn',
     state='global random generator')
prop('C10', 'Search grids enumerate and refine their domain exactly',
     'A search grid has, along each axis, the requested number of uniformly spaced points from start (included) to stop (excluded), or the default full range of the unit, or the concatenation of the requested segments, or exactly the given axes; size, shape, dimension, units, axis names agree, and its source placement lists the Cartesian product of the axes with the first axis varying slowest. '
     'Refining a grid at a coordinate subdivides every original interval within the span around that coordinate (clipped at the borders) into the requested number of equal intervals, keeps the original points and the unit and type of grid, and works for 1D, 2D far-field and 2D near-field grids, one grid per coordinate. '
     'Invalid density, span or coordinates are refused and the original grid is unchanged.',
     ['inputs', 'configurations'], 'all starts, stops, sizes, units, axes, coordinates (including borders), densities and spans',
     'The tests check three grids with one refinement.',
     ['doatools/estimation/grid.py', 'doatools/utils/math.py'], 'SearchGrid classes, create_refined_axes_at, create_refined_grid_at')
prop('C11', 'Spectra equal their defining formula at every grid point',
     'The spectrum returned by the beamformers and subspace estimators equals, at each grid point and in the shape of the grid, the definition evaluated with the steering vector a of that point including only the imperfections known a priori: a^H R a (Bartlett), 1/(a^H R^-1 a) (MVDR), 1/(a^H En En^H a) (MUSIC), and 1/|d^H a|^2 (Min-Norm) where En spans the eigenvectors of the m-k smallest eigenvalues and d is the vector of that noise subspace with first entry one and minimum norm. '
     'This holds for 1D and 2D grids, near and far field, all units and any Hermitian covariance, with or without caching. '
     'The spectrum is real and does not depend on the memory layout of the covariance.',
     ['inputs', 'configurations'], 'all arrays, grids, covariances, source numbers and imperfections',
     'The tests only compare final estimates at a few angles; the spectra themselves are never checked.',
     ['doatools/estimation/beamforming.py', 'doatools/estimation/music.py', 'doatools/estimation/min_norm.py', 'doatools/estimation/core.py'],
     'f_bartlett, f_mvdr, f_music, MinNorm.estimate, get_noise_subspace, atom matrix')
prop('C12', 'Estimates are the k largest peaks of the spectrum, or unresolved',
     'A spectrum-based estimator reports resolved exactly when its spectrum has at least k peaks; it then returns the k highest peaks (none for k = 0) as grid points, in the order of the grid, with the type and unit of the search grid, and otherwise returns no estimates. '
     'With the default peak finder peaks are interior local maxima in 1D and points not exceeded by any of their 8 neighbours in 2D; a user-supplied peak finder is called with the spectrum in grid shape and its peaks are used instead. '
     'Asking for the spectrum changes only what is additionally returned.',
     ['inputs', 'configurations'], 'all spectra shapes, numbers of requested sources, grids and peak finders',
     'The tests only use spectra with exactly k clear peaks in 1D.',
     ['doatools/estimation/core.py'], 'SpectrumBasedEstimatorBase estimation flow and find_peaks_simple')
prop('C13', 'Grid refinement improves estimates within their own grid cell',
     'With refinement enabled each estimate is replaced by a point that lies within one original grid interval of the unrefined estimate along each axis, sits on the lattice obtained by repeatedly dividing the intervals by the requested density for the requested number of iterations, and has a spectrum value not lower than that of the unrefined estimate and, per iteration, not lower than any other point of the refined neighbourhood it was selected from. '
     'The number of estimates, their pairing with the peaks, the unit, the resolved flag and the returned coarse spectrum are the same as without refinement. '
     'This holds for 1D and 2D grids, borders, all units, densities and iteration counts.',
     ['inputs', 'configurations'], 'all spectra, grids, densities, iteration counts and numbers of sources',
     'The tests run refinement with default settings on one 1D and one 2D scenario.',
     ['doatools/estimation/core.py', 'doatools/estimation/grid.py'], 'refinement loop of the spectrum-based estimators and refined grids')
prop('C14', 'Results do not depend on history and arguments are never modified',
     'Estimators, builders, problems and model objects can be reused: a call returns the same result as on a fresh object, regardless of earlier calls with other covariances, source numbers, options or regularisation, of steering-matrix caching, and of changes the caller makes to returned objects or to its own arrays after a call has finished. '
     'No public function modifies the arrays, placements, grids, array designs or option dictionaries passed to it, and all accept read-only and non-contiguous arrays. '
     'Nothing but the signal and noise generators draws from or reseeds the global random generator.',
     ['histories', 'inputs'], 'all sequences of calls on shared objects',
     'Every test uses fresh objects and a single call.',
     ['doatools/estimation/core.py', 'doatools/estimation/ml.py', 'doatools/estimation/sparse.py', 'doatools/optim/l1lsq.py', 'doatools/estimation/coarray.py', 'doatools/model/arrays.py'],
     'atom matrix cache, lazily created grid placements, ML working estimates, reused optimisation problems',
     state='estimator caches, last estimates, global random generator')
prop('C15', 'Rooting methods recover exact directions from exact covariances',
     'From the exact covariance matrix of a uniform linear array with distinguishable sources, root-MUSIC and ESPRIT return exactly the k true directions, sorted and in the requested unit, for any spacing up to the unambiguous limit, any wavelength, noise level, source powers and correlation (non-coherent). '
     'For ESPRIT this holds for every displacement within its unambiguous range, for least squares and total least squares, and for default, no or user-given row weights; from covariances with errors it returns the solution of the weighted problem it was asked to solve. '
     'Too many sources, non-square covariances, and invalid options are refused, and any resolved estimate consists of k finite angles.',
     ['inputs', 'configurations'], 'all uniform linear arrays, source sets, units and options',
     'The tests use one array, one spacing and one set of options.',
     ['doatools/estimation/music.py', 'doatools/estimation/esprit.py', 'doatools/model/sources.py'], 'RootMUSIC1D.estimate, Esprit1D.estimate, from_z')
prop('C16', 'Maximum-likelihood estimators minimise their documented objective',
     'When an ML estimator (AML, CML, WSF) reports success, its estimates keep the type, unit, number and valid range of the initial guess and attain a value of the documented objective function, evaluated with the imperfections known a priori, that is not above that of the initial guess and that is a local minimum up to solver tolerance. '
     'Starting close enough to the truth with an exact covariance it recovers the true locations for 1D, 2D and near-field sources. '
     'The last estimates can be retrieved as an independent copy only after an estimation, and too many sources or wrongly sized covariances are refused.',
     ['inputs', 'configurations', 'histories'], 'all arrays, covariances, initial guesses, source types and estimator reuse',
     'The ML estimators have no tests at all.',
     ['doatools/estimation/ml.py', 'doatools/utils/math.py'], 'objective functions, bounds and bookkeeping of the ML estimators',
     state='working estimates of the estimator')
prop('C17', 'Sparse recovery solves the stated convex problem',
     'The sparse recovery problems return, up to solver tolerance, an optimal solution of their stated formulation (penalised, l1-constrained or residual-constrained least squares with optional nonnegativity; complex or real group-sparse least squares), and all zeros with a warning when no optimal solution exists. '
     'The covariance-matching estimator solves that problem for the column-stacked covariance against the stacked source covariances plus, unless the noise power is given (then it is subtracted), a noise column; the group-sparse estimator for the snapshots against the steering matrix; spectra are the recovered powers, or row norms, on the grid. '
     'With noise-free on-grid sources the true locations are identified, and unsupported options or inconsistent sizes are refused.',
     ['inputs', 'configurations', 'histories'], 'all dictionaries, observations, regularisation values, formulations and problem reuse',
     'There are no tests of the sparse estimators or optimisation problems.',
     ['doatools/optim/l1lsq.py', 'doatools/estimation/sparse.py', 'doatools/utils/math.py'], 'problem construction, parameter update and the atom/observation layout',
     state='parameters of the reused optimisation problem')
prop('C18', 'Cramer-Rao bounds equal the inverse Fisher information',
     'The stochastic, uncorrelated stochastic and deterministic bounds equal the source-location block of the inverse Fisher information matrix of their documented model (with the actual, perturbed array and in the unit of the sources), so they are symmetric, positive definite, inversely proportional to the number of snapshots, invariant to a common scaling of powers and noise, and consistently ordered. '
     'Scalar, list, vector and matrix powers mean the same where equivalent, and the full, diagonal and mean-diagonal outputs agree with each other. '
     'Sources that are not 1D far-field, wrongly sized powers and unknown output modes are refused.',
     ['inputs', 'configurations'], 'all arrays, imperfections, units, source sets, powers and noise levels, including more sources than sensors for the uncorrelated bound',
     'The tests compare three fixed numeric values.',
     ['doatools/performance/crb.py', 'doatools/performance/utils.py'], 'crb_sto_farfield_1d, crb_stouc_farfield_1d, crb_det_farfield_1d')
prop('C19', 'Asymptotic MSE formulas match first-order perturbation analysis',
     'The asymptotic error covariance of MUSIC and of coarray-based MUSIC equals the covariance obtained from a first-order perturbation analysis of the respective estimator under complex Gaussian snapshots, for any source powers (MUSIC: also correlated sources), noise, spacing, wavelength, unit, and (MUSIC) the selected imperfections. '
     'The results are symmetric positive semidefinite, inversely proportional to the number of snapshots, never below the matching Cramer-Rao bound, and consistent over the equivalent forms of the power argument and over the output modes. '
     'Too many sources, perturbed arrays (coarray case), sources that are not 1D far-field and malformed powers are refused.',
     ['inputs', 'configurations'], 'all arrays, source sets, powers, noise levels, snapshot counts and units',
     'The tests compare two fixed numeric results.',
     ['doatools/performance/mse.py', 'doatools/performance/utils.py', 'doatools/model/coarray.py'], 'ecov_music_1d, ecov_coarray_music_1d')
prop('C20', 'Source number detection implements its criteria at any scale',
     'AIC, MDL and SORTE return the minimiser of their published criterion over all admissible source numbers, given either the covariance matrix or its eigenvalues in ascending order, with identical results for both. '
     'The result does not change when the covariance is multiplied by any positive constant, however large or small (as long as squared eigenvalues remain representable), and with a clear eigenvalue gap and enough snapshots the true number of sources (from zero for AIC/MDL) is returned. '
     'SORTE refuses fewer than four eigenvalues.',
     ['inputs'], 'all covariance matrices/eigenvalue vectors, sizes, snapshot counts and scales',
     'The tests check one scenario per method.',
     ['doatools/estimation/source_number.py'], 'aic, mdl, sorte, ld_stat')
prop('C21', 'Preprocessing follows its definition',
     'Spatial smoothing returns the average of the covariance matrices of the l overlapping subarrays of size m-l+1, and with forward-backward averaging also the mean with its conjugated flip, for real and complex matrices, so that Hermitian (positive semidefinite) input gives Hermitian (positive semidefinite, and persymmetric in the forward-backward case) output. '
     'The l1-SVD reduction returns an m x k matrix that equals the snapshots multiplied by their k dominant right singular vectors, up to the inherent column phase, preserving the rank-k part of Y*Y^H. '
     'Numbers of subarrays outside 1..m are refused, and smoothing restores the rank for coherent sources so that subspace methods resolve them.',
     ['inputs'], 'all matrices, sizes, l, k and modes',
     'The tests check one size for smoothing and one for l1-SVD.',
     ['doatools/estimation/preprocessing.py'], 'spatial_smooth, l1_svd')
prop('C22', 'Math and conversion utilities obey their algebraic definitions',
     'Vectorisation stacks columns, the Khatri-Rao product is the column-wise Kronecker product, the projection matrix is the orthogonal projector on the column space, the Cartesian product enumerates all combinations in lexicographic order of position, squared magnitudes are exact, and complex normal samples have the requested shape and unit variance, for all real and complex inputs. '
     'Unique-row extraction returns one representative for every group of rows equal within tolerance, in order of first occurrence or sorted lexicographically, together with correct indices. '
     'Angle conversions between radians, degrees and sines, azimuth-elevation to broadside and Cartesian to spherical conversions are geometrically correct and invertible on their ranges and return new arrays.',
     ['inputs'], 'all matrices, vectors, tolerances, units and coordinates',
     'The tests check single small examples of each function.',
     ['doatools/utils/math.py', 'doatools/utils/conversion.py'], 'utility functions')
prop('C23', 'Plots show the data they are given',
     'Spectrum plots draw, on the given axes (or a new figure if none is given) and nowhere else, the spectra normalised by their maxima over the grid coordinates, 2D spectra oriented to the labelled axes, and the estimates and ground truth at their locations, returning the containers in the documented order; array and coarray plots draw the nominal element positions or unique differences, and the actual ones when location errors exist and are requested. Everything drawn lies within the visible ranges of its axes. '
     'Mismatching spectrum shapes and location units are refused. '
     'Plotting does not alter its inputs.',
     ['inputs', 'configurations', 'histories'], 'all spectra, grids, option combinations and arrays in 1D, 2D, 3D',
     'There are no tests of plotting.',
     ['doatools/plotting/plot_spectrum.py', 'doatools/plotting/plot_array.py'], 'plot_spectrum, plot_array, plot_coarray',
     state='matplotlib current figure/axes')
prop('C24', 'The full pipeline identifies the sources that generated the data',
     'From the exact covariance of a scenario, MVDR, MUSIC and Min-Norm on a grid containing the sources identify all of them, for every array, source type (1D, 2D, near-field), unit and set of imperfections declared known, up to the number of sources the array can resolve; coarray-augmented MUSIC does so for more sources than sensors. '
     'From simulated snapshots, estimates converge to the truth as snapshots grow, with root-mean-square errors matching the asymptotic formulas and not beating the matching Cramer-Rao bound. '
     'Declaring imperfections unknown makes estimators ignore them, while the simulated data still contain them.',
     ['inputs', 'configurations'], 'all identifiable scenarios: arrays, sources, imperfections, grids and estimators',
     'The tests cover a handful of fixed scenarios with perfect arrays.',
     ['doatools/estimation', 'doatools/model', 'doatools/performance'], 'composition of model, estimation and performance modules')
prop('C25', 'Invalid requests fail loudly instead of returning wrong answers',
     'Requests outside the documented domain are refused with an error and never answered with a wrong result: covariance matrices that are not square or do not match the array, more sources than a subspace, rooting, ML or coarray method can resolve, negative numbers of sources, unknown units, methods, formulations, modes, filters or row weights, source or sensor coordinates of the wrong dimension or out of range, mismatching or non-square imperfection parameters, missing noise power, and grid refinement where it is unsupported. '
     'The refusal is a value, key or runtime error raised by the call that received or first uses the bad argument, and leaves the objects involved usable with unchanged behaviour. '
     'Valid requests at the edge of the domain (largest source number, range limits, largest array) are accepted.',
     ['inputs', 'fault_sequences'], 'all documented preconditions of the public API, with bad and boundary arguments, followed by valid calls on the same objects',
     'Few error paths are tested and never followed by reuse.',
     ['doatools/model', 'doatools/estimation', 'doatools/performance', 'doatools/optim'], 'argument validation across the public API',
     state='estimator caches after a failed call')

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
