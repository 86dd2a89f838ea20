prop("P01", "Operators and their transposes are adjoint",
     "For every linear operator of the package (identity, scaling, gradient, Laplacian, convolution, Fourier, wavelets, matrix and function projectors), "
     "the inner product of A x with y equals that of x with the transpose applied to y, for all images x and data y. "
     "Outputs have the declared shapes, and the flattened linear-operator interface gives the same numbers.",
     ["inputs", "configurations"], "all images, data and kernel/scaling coefficients; shapes, axes, padding modes and wavelets listed per harness",
     "tests check a few operators on one random vector each; a wrong boundary sample, axis or sign shows only for particular shapes/paddings",
     ["operators.py", "projectors.py"], [("op pairs _op_direct/_op_adjoint", "operators.py"), ("rmatvec/matvec flattening", "operators.py")],
     "1D-3D shapes up to 4x4 (quick). Boundary rules whose adjoint is approximate by design are covered for images vanishing at the boundary, and listed as known findings otherwise.")
prop("P02", "Operator algebra: transpose, composition, absolute value, flattening",
     "Transposing twice gives back the operator, composing operators applies them in sequence and transposes in the opposite order, and the absolute value of an operator "
     "acts with the absolute value of its coefficients. Explicit matrices, diagonal scalings and flattened interfaces agree with the operator they came from. "
     "Applying an operator never changes its input.",
     ["inputs", "configurations"], "all images, data and coefficients; small shapes",
     "tests compose one pair of operators on fixed arrays", ["operators.py", "projectors.py"],
     [("BaseTransform._transpose/__mul__/absolute/explicit", "operators.py")], "shapes up to 2x3 / 2x2x2.")
prop("P03", "Decompositions are inverted exactly by their transpose",
     "Wavelet decompositions (stationary and decimated, with or without normalisation, with padding on demand), the Fourier operator and the SVD operator return the original image "
     "when their transpose is applied to the coefficients. The coefficients always have the declared shape.",
     ["inputs", "configurations"], "all images of the listed shapes, wavelets, levels, axes and padding modes",
     "tests reconstruct one phantom with one wavelet; odd sizes, subsets of axes and padding interplay are untested",
     ["operators.py"], [("TransformStationaryWavelet/TransformDecimatedWavelet pad and crop", "operators.py"), ("TransformSVD", "operators.py")], "up to 8 samples per axis, levels 1-3.")
prop("P04", "Data-fidelity terms: residuals, norms, slicing, background, gaps",
     "The residual is projection plus background minus data, masked where requested; each term's residual norm equals its published formula, entry-wise, for data of any dimension, "
     "masks and variances; extracting a slice of a term behaves as the term built on the slice. The primal-dual gap is the primal cost plus the dual cost and counts the background once.",
     ["inputs", "configurations"], "all data, projections, masks, weights, backgrounds and variances within the ranges",
     "tests evaluate one random vector per term and no masked/background/2-D combination", ["data_terms.py"],
     [("compute_residual/_norm", "data_terms.py"), ("compute_primal_dual_gap", "data_terms.py")], "up to 4 data points in 1D and 2x2/2x3 in 2D.")
prop("P05", "Proximal operators of the data terms are exact, and Moreau-consistent",
     "For every data-fidelity term the dual proximal equals its published formula with the data, step size and thresholds in use, and the primal proximal is the minimiser of "
     "the term plus the quadratic distance: together they satisfy the Moreau identity. Zero weights never produce non-finite values.",
     ["inputs", "configurations"], "all duals, data, step sizes (scalar or array), weights, thresholds and backgrounds within the ranges",
     "tests check signs/shapes on fixed arrays; identities must hold for every value and step", ["data_terms.py"],
     [("apply_proximal_dual/apply_proximal_primal", "data_terms.py")], "1-4 points; 2x2 for vectorial and spectral norms.")
prop("P06", "Regularizers: dual ascent, feasible duals, primal proximals",
     "Every regularizer's dual step adds the step size times its operator's output, its dual proximal keeps the dual inside the dual-norm ball of its weight, and its primal update is the adjoint of the dual (masked and weighted as configured) and leaves dual and image untouched. "
     "Where a primal proximal exists it is the exact threshold of the coefficients; where it does not, it refuses. Zero weight means no regularization, never NaN.",
     ["inputs", "configurations"], "all images, duals, weights, masks and steps within the ranges; all regularizer families",
     "tests run a couple of reconstructions with a tolerance and cannot see a dual that leaves its ball", ["regularizers.py", "operators.py"],
     [("initialize_sigma_tau/update_dual/apply_proximal_dual/compute_update_primal", "regularizers.py")], "images of up to 4x4 / 2x2x2.")
prop("P07", "Limit constraints project; regularizer instances do not interfere",
     "Lower and upper limit constraints (scalar or per-pixel) project images onto the feasible set, leave feasible pixels alone and push infeasible ones towards the limit. "
     "Regularizer instances are independent: creating, initialising or using one never changes another, and re-initialising an instance makes it behave as a fresh one.",
     ["inputs", "histories"], "all images, duals, limits and masks; interleavings of two instances of each kind",
     "tests use a single constraint instance with one limit", ["regularizers.py"],
     [("Constraint_LowerLimit/Constraint_UpperLimit", "regularizers.py")], "2x2 images (4x4 for wavelets), two instances.")
prop("P08", "An image that explains the data is a fixed point of every solver",
     "If the data are exactly the projection of an image, every iterative solver started at that image returns it, for any relaxation, limits containing the image, backgrounds, data terms, data masks and "
     "(for constant images) derivative regularizers. One MLEM update preserves the total counts and non-negativity, one SIRT step never increases the weighted residual.",
     ["inputs", "configurations"], "all images, relaxations, limits and data of the listed systems; 1-4 iterations",
     "tests start from zero with noisy data and a tolerance: a systematic bias of the update is invisible", ["solvers.py", "data_terms.py", "regularizers.py"],
     [("SIRT/SART/MLEM/PDHG/FISTA __call__", "solvers.py")], "systems of up to 3x3, 1-4 iterations; Python-level projector matrices.")
prop("P09", "Reconstructions respect limits and support",
     "Every solver returns an image inside the lower/upper limits (scalar or per pixel) and exactly zero outside of the solution mask, for any data and start image, with and without regularizers.",
     ["inputs", "configurations"], "all data, start images, limits and masks; 1-2 iterations; all solvers and FBP",
     "tests use a lower limit of 0 with one phantom", ["solvers.py"], [("lower_limit/upper_limit/x_mask handling", "solvers.py")], "systems of up to 3x3, 1-2 iterations.")
prop("P10", "Masked data have no influence; solvers have no side effects or memory",
     "Two data sets that differ only where the data mask is zero, or in the cross-validation test set, give the same reconstruction. Solvers modify none of their arguments, and a solver object that was already used "
     "(with other data, masks or sizes) gives the same result as a fresh one. Test and training masks never overlap.",
     ["inputs", "histories"], "all pairs of data sets, masks, starts; 1-3 iterations; all solvers",
     "it is a relation between two runs over all masks; tests only run one", ["solvers.py", "data_terms.py"],
     [("initialize_b_masks and masked residuals", "solvers.py"), ("assign_data / initialize_sigma_tau state", "regularizers.py")], "systems of up to 3x3, 1-3 iterations.")
prop("P11", "Solver iterations follow the published algorithms",
     "Each iteration of SIRT, SART, MLEM, PDHG (Chambolle-Pock), FISTA and FBP computes the update that the algorithm prescribes, with the configured relaxation, preconditioners, masks, backgrounds, data terms, regularizers, limits and momentum restart.",
     ["inputs", "configurations", "schedules"], "all data, starts, relaxations, masks, weights and (SART) row orders; 1-4 iterations",
     "tests compare final images to phantoms with loose tolerances", ["solvers.py"],
     [("solver main loops and _get_pre-conditioners", "solvers.py")], "systems of up to 3x3 with positive, negative and zero entries; 1-4 iterations; independent references in plain arithmetic.")
prop("P12", "Solution book-keeping and stopping are truthful",
     "The initial and per-iteration residuals (training and test sets) reported by a solver are the data-term norms of the images they describe; relative residuals are ratios to the initial ones; the run stops at the first iteration whose residual "
     "falls below the tolerance and never before; without iterations the start image is returned; the method name is recorded.",
     ["inputs", "histories"], "all data, starts, masks and tolerances; 0-2 iterations",
     "tests only look at the final image", ["solvers.py"], [("SolutionInfo and residual bookkeeping", "solvers.py")], "systems of up to 3x3, 1-2 iterations.")
prop("P13", "Projectors apply the corrections to the geometry's line integrals",
     "A projector's output is the line integrals of the volume scaled by the projection intensities and convolved with the PSF; attenuation-corrected projectors multiply the volume with the attenuation map and weigh each detector. Projecting all angles at once equals angle by angle; "
     "collapsing detectors is their sum; the declared transposes are adjoint; threads and backends do not change the numbers.",
     ["inputs", "configurations", "schedules"], "all images, line-integral matrices, intensities, PSFs, maps, weights; all completion orders of the thread pool",
     "tests project a phantom and look at the shape", ["projectors.py", "_projector_backends.py"],
     [("fp/bp/fp_angle/bp_angle", "projectors.py"), ("ProjectorBackendSKimage", "_projector_backends.py")],
     "up to 3 pixels, 3 angles, 3 detectors; the backend's line integrals are a matrix of inputs, and the scikit-image ones are read off the library.")
prop("P14", "Attenuation maps are Beer-Lambert factors of the traversed material",
     "The attenuation of a voxel is the exponential of minus the material between the source (or the detector) and the voxel, including half of the voxel, for every direction; maps combine incoming and outgoing beams, "
     "independently of the thread schedule; detectors with a surface average over it; selections, binning, projector arguments and linear coefficients are consistent with the maps.",
     ["inputs", "configurations", "schedules"], "all attenuation volumes, maps, pixel sizes and densities; listed directions; all completion orders",
     "tests compare one phantom with a stored number", ["_projector_backends.py", "physics/attenuation.py"],
     [("compute_attenuation", "_projector_backends.py"), ("AttenuationVolume", "physics/attenuation.py")],
     "volumes up to 4x4 / 2x3x3; bilinear rotations of scikit-image are read off the library.")
prop("P15", "Acquisition geometries are rigid, broadcastable and self-consistent",
     "Rotating, tilting, shifting and slicing a projection geometry moves source, detector and detector axes rigidly and in order, with values given once or once per angle, for every angle, and leaves the original untouched. "
     "Displacements are seen as their components along the detector; cone-beam weights are distance ratios at the pixel centres; volume shapes, extents and axis orders convert consistently; recentering shifts by the projected displacement.",
     ["inputs", "configurations"], "all positions, shifts, distances, angles about the vertical axis, detector axes and volume sizes within the ranges",
     "tests check a handful of rotations and tilts, single row or full rows only", ["models.py", "alignment/centering.py"],
     [("ProjectionGeometry/VolumeGeometry", "models.py"), ("RecenterVolume", "alignment/centering.py")], "1-4 angles; sizes up to 6; rotations about oblique axes at listed angles.")
prop("P16", "Alignment finds the shifts, centres and trajectories that the data have",
     "Cross-correlation and sum-of-absolute-differences shifts are optima over all shifts; peak regions surround the maximum; sub-pixel refinements return the vertex of sampled parabolas; fitted minima stay within the samples; "
     "ellipse fits recover centre, axes and extremes of any (tilted) ellipse; pre-alignment returns, in the order of the angles, the deviations from the fitted trajectory and the centre of rotation, and drops shifts beyond the maximum.",
     ["inputs", "configurations"], "all images, parabolas, ellipses, pairwise shifts and angle orders within the ranges",
     "tests align one phantom with loose tolerances", ["alignment/fitting.py", "alignment/shifts.py"],
     [("fit_shifts_*, refine_max_position_*, fit_parabola_min, Ellipse", "alignment/fitting.py"), ("DetectorShifts*", "alignment/shifts.py")],
     "images up to 3x3, lines up to 8; linear least squares of consistent systems are replaced by their exact solutions, after showing that they are consistent.")
prop("P17", "Cone-beam calibration recovers the acquisition, and its geometries reproduce it",
     "Calibration from the ellipses of two circles recovers the source-detector and source-axis distances, principal point, tilts and projected origin. The projection geometry built from the parameters puts source, detector, principal point and pixel axes where the parameters say; "
     "translations keep it rigid; tuning moves one parameter at a time to the minimum of the residual; wrong ellipse orders are refused.",
     ["inputs", "configurations"], "all distances, principal points, angles and pixel sizes within the ranges; listed circle arrangements",
     "tests calibrate one simulated set", ["alignment/cone_beam.py"],
     [("ConeBeamGeometry, FitConeBeamGeometry, tune_acquisition_geometry", "alignment/cone_beam.py")], "tilt angles symbolic within 30 degrees one at a time, otherwise listed; ellipses of listed arrangements at any pixel size.")
prop("P18", "Structured illumination: masks, collections and ghost projectors are consistent",
     "Ghost-imaging buckets are scalar products with the encoding masks and back-projections weigh the decoding masks; ghost tomography does so for each projection, with the adjoint and the right shapes. Least squares of complete collections return the image; MURA correlation is a delta; "
     "shift selections are distinct, complete and in range; orthogonalisation, reordering and binning of masks keep masks and buckets consistent.",
     ["inputs", "configurations", "schedules"], "all masks, images, buckets, line integrals, draws and grid sizes within the bounds",
     "tests check shapes only", ["struct_illum.py"], [("MaskCollection, MaskGenerator*, ProjectorGhost*", "struct_illum.py")],
     "images up to 2x3 (MURA 5x5), up to 4 masks.")
prop("P19", "Hyper-parameter tuning: ordered results, fair folds, exact losses and minima",
     "Reconstructions, information and losses are those of each hyper-parameter value, in the order of the values, in serial and parallel, whatever order tasks finish in, and failures of a task are reported. Cross-validation folds select each data point exactly once; "
     "losses are the relative residuals of the last iteration done, averaged over the rounds; fitted minima are the vertex of the parabola inside the range, else the smallest sample; value ranges are geometric and cover the interval.",
     ["inputs", "configurations", "schedules"], "all values, residuals, shuffles, fractions and completion orders within the bounds",
     "tests run one tuning with loose tolerances; completion order and stops are not controlled", ["param_tuning.py"],
     [("_parallel_compute/_serial_compute, CrossValidation, LCurve", "param_tuning.py"), ("fit_func_min, get_lambda_range, create_*_test_mask*", "param_tuning.py")],
     "up to 3 values, 3 rounds, 3 iterations, 6 data points.")
prop("P20", "Pre-processing: flat fields, shifts, binning, backgrounds, destriping",
     "Flat-field correction is (projections - dark) / (flat - dark), linearisation minus the logarithm; padding, shifts, rotations and binning act on each projection by itself and along the chosen axes; margin backgrounds are the margins' means (or their polynomial continuation), "
     "SNIP backgrounds never exceed the image; destriping only changes the mean over the angles; inputs are left alone.",
     ["inputs", "configurations"], "all images, flats, darks, limits; listed shapes (odd and even), shifts, margins and axes",
     "tests run one phantom, even sizes, default axes", ["processing/pre.py"],
     [("apply_flat_field, shift_proj_stack, bin_imgs, background_from_*, destripe_wlf_vwu", "processing/pre.py")],
     "images up to 2x3x4; Fourier transforms and wavelets are read off the library; SVD results are inputs constrained by their definition.")
prop("P21", "Image analysis: masks, correlations, spectra, resolution, error maps",
     "Circular and tapered masks select pixels by their distance from the origin; azimuthal integration preserves sums; reported crossings lie on both lines; correlations are normalised; power spectra and ring correlations are ring averages with the invariances of their definition "
     "(self-correlation one, symmetric, scale-free, within [0, 1]); error maps decompose exactly; fits of scale and bias have exact gradients.",
     ["inputs", "configurations"], "all images, offsets, origins and lines within the ranges; listed shapes and axes",
     "tests check one mask and one phantom", ["processing/misc.py", "processing/post.py"],
     [("circular_mask, ball, azimuthal_integration, lines_intersection", "processing/misc.py"), ("power_spectrum, compute_frc, estimate_resolution, fit_scale_bias", "processing/post.py")],
     "images up to 3x4 / 2x3x3; line pairs up to 5 samples.")
prop("P22", "Noise models propagate variances; weights are inverse, bounded and masked",
     "Poisson and transmission variances follow the propagation formulas and stay positive and finite without counts; least-squares weights are positive, decrease with the variance, are at most one when normalised, are zero outside of the mask, and pixels outside do not influence those inside; "
     "variances below the percentile count as the first above it.",
     ["inputs", "configurations"], "all counts, references, variances and masks within the ranges",
     "tests check one image", ["processing/noise.py"], [("compute_variance_poisson/transmission/weight", "processing/noise.py")], "up to 4 pixels.")
prop("P23", "X-ray physics: units, compounds, materials, fluorescence, beam profiles",
     "Unit conversions are ratios and invert; energies and wavelengths convert back; attenuation, phase, mass fractions, Compton and fluorescence productions are the sums over materials, elements and lines of their tables' values, missing entries counting as zero; solid angles, angle ranges and "
     "parallax checks follow the detector's geometry; beam profiles are positive, symmetric and normalised; invalid inputs are refused.",
     ["inputs", "configurations"], "all table values, fractions, densities, distances and sizes within the ranges; listed angles and elements",
     "tests compare one number with the tables of one library version", ["physics/units.py", "physics/materials.py", "physics/xrf.py", "physics/xraylib_helper.py", "physics/__init__.py"],
     [("VolumeMaterial", "physics/materials.py"), ("DetectorXRF", "physics/xrf.py"), ("pencil_beam_profile", "physics/__init__.py")],
     "volumes of 2-3 voxels, up to 2 materials of 2 elements; the cross-section tables are inputs.")
prop("P24", "Phase propagation filters have the published response and invert it",
     "CTF and TIE filters have the published responses at the frequencies of the image; filtering solves the response's equation on the edge-padded image, leaves constants alone and treats stacks image by image; delta over beta is that of the refractive index; plots show what they claim.",
     ["inputs", "configurations"], "all images, distances, wavelengths, delta over beta; listed shapes",
     "tests only run one image", ["physics/phase.py"], [("get_propagation_filter, apply_propagation_filter, get_delta_beta_curves", "physics/phase.py")],
     "images up to 2x3 / 5; Fourier transforms are read off the library as matrices.")
prop("P25", "FBP filters convolve linearly, and the data-driven ones fit the data",
     "Filters are linear convolutions of each row with their real-space taps, without wrap-around and keeping shape and inputs; Fourier and real-space representations agree; named filters are the windowed ramps; data-driven filters solve the least-squares problem of the projected basis reconstructions; "
     "the FBP solver back-projects the filtered data and ignores masked data.",
     ["inputs", "configurations", "histories"], "all data, filter taps, masks; named filters and listed bases",
     "tests reconstruct one phantom with loose tolerances", ["filters.py", "solvers.py"], [("Filter, FilterFBP, FilterMR, create_basis", "filters.py"), ("FBP", "solvers.py")],
     "rows up to 3 pixels (33: two of them), 2-3 angles.")
prop("P26", "Denoising solves the stated problem and selects its weight fairly",
     "With one weight the denoised image is the primal-dual solution of the (weighted, blurred) least squares with that regularization, from the image and above the limit; with several weights the chosen one is the fitted minimum of the cross-validation losses, "
     "test pixels start from their neighbourhood's median and only enter the test residual; inputs are left alone.",
     ["inputs", "configurations"], "all images, weights, limits; listed regularizations",
     "tests compare the error of one noisy phantom", ["denoisers.py"], [("denoise_image", "denoisers.py")], "images of up to 4 pixels, 0-2 iterations, 3 weights.")
prop("P27", "Primal-dual step sizes satisfy the convergence condition",
     "The dual steps of every regularizer together with the primal weight that it asks for, and the diagonal scalings of the system with its regularizers, satisfy <x, K^T Sigma K x> <= <x, T^-1 x>; the power method never overestimates by construction and the scalar steps satisfy the product bound.",
     ["inputs", "configurations"], "all images, weights, masks, rows of systems within the ranges; all regularizers",
     "a too large step only shows as divergence on special images", ["regularizers.py", "solvers.py"],
     [("initialize_sigma_tau of every regularizer", "regularizers.py"), ("PDHG._get_data_sigma_tau_unpreconditioned, _initialize_data_operators", "solvers.py")],
     "signals up to 8, images up to 3x3 / 2x2x2, systems up to 3x3.")
prop("P28", "ASTRA backends hand over the geometry, route data and release resources",
     "The geometries given to the ASTRA toolbox have the volume's extent, the detector's shape and source, detector and pixel axes rotated by each angle, in one unit, the same for both backends; (back-)projections apply the toolbox to the right angles and have the declared shapes, also with attenuation and in 3D; "
     "when any toolbox call fails the error is reported, nothing but projectors stays allocated and the next call is right; given geometries are left alone.",
     ["inputs", "configurations", "fault_sequences"], "all angles, positions, axes, kernels, images, data; every failing toolbox call",
     "the tests need a GPU and the toolbox: they are skipped", ["_projector_backends.py", "projectors.py", "models.py"],
     [("ProjectorBackendASTRA, ProjectorBackendDirectASTRA", "_projector_backends.py")],
     "the toolbox is not installed: a stand-in records geometries and objects, and its kernels are matrices of inputs; 1-2 angles, volumes up to 2x2x2 (4x4x2 for geometries).")
prop("P29", "Simulated acquisitions and phantoms are consistent with their parameters",
     "Simulated sinograms are the (attenuated, blurred) projections at evenly spaced angles times photons and solid angle, or photons times exp(-projections) with their flat field; noise is background, then counts, then read-out, with the reported background the mean of the one added; "
     "each phantom voxel belongs to exactly one material; yields and attenuation come in the order of the elements; error powers are root mean squares.",
     ["inputs", "configurations"], "all phantoms, fluxes, times, efficiencies, random draws within the ranges",
     "tests only use them to make data; wrong simulations go unnoticed", ["testing.py"],
     [("add_noise, create_sino, create_sino_transmission, phantom_assign_concentration*", "testing.py")],
     "phantoms of 3x3 pixels, 2-3 angles; the draws of the random generator are inputs; the attenuation of the simulated sinograms is concrete (see P14).")
prop("P30", "Diagnostic plots show the data and quantities they claim",
     "Plots of transmittances, emission lines, attenuation maps, spectra, filters, correlation curves, fitted minima, cross-validation curves, beam profiles, masks and alignment fits draw the values that they are computed from, at the right coordinates, in the stated order and units, "
     "whatever the data, and leave these data alone.",
     ["inputs", "configurations"], "all plotted values within the ranges; listed shapes",
     "the tests never look at the plots", ["physics/attenuation.py", "models.py", "filters.py", "processing/post.py", "struct_illum.py", "param_tuning.py", "physics/__init__.py", "alignment/fitting.py", "alignment/shifts.py"],
     [("plot_transmittance_decay, plot_emission_line_attenuation", "physics/attenuation.py"), ("AttenuationVolume.plot_map", "physics/attenuation.py"), ("Filter.plot_filters", "filters.py"), ("plot_frcs", "processing/post.py")],
     "2-4 points, images up to 3x4; matplotlib is replaced by a recorder of what is drawn.")
