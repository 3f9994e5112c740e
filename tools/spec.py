"""Single source of properties.jsonl and MANIFEST.json: run `python3 tools/spec.py`."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


S = "ebsdtorch/s2_and_so3/"
prop("C01", "Rotation conversions preserve the rotation in every representation",
     "Converting any rotation between any two of the supported representations (quaternion, orientation matrix, "
     "axis-angle, Rodrigues, homochoric, cubochoric, zero-homochoric, Bunge Euler angles), directly or through any "
     "chain of conversions, yields the same physical rotation in the canonical form of the target, for every rotation "
     "including the identity, 180 degree rotations and the edges of each domain. The result does not depend on the "
     "batch shape, and the input is left unmodified.",
     ["inputs", "histories"], "all rotations, both floating dtypes, all batch shapes, all pairs and chains of conversions",
     "The existing tests sample random generic rotations and a few fixed ones; the failures live on measure-zero sets "
     "(identity, 180 degrees, zero components, pyramid faces) and in batch shapes no test uses.",
     [S + "orientations.py", S + "quaternions.py"],
     [("pairwise conversions", S + "orientations.py"), ("branch thresholds for small and 180 degree angles", S + "orientations.py")],
     "property-based testing: Hypothesis generators over structured rotations, differential against an independent float64 oracle",
     "52 sub-properties: every conversion against an independent NumPy implementation, plus random conversion chains")
prop("C02", "Quaternion operations form the rotation group action on vectors",
     "Quaternion multiplication is associative, has an identity and inverses and agrees with composing rotation "
     "matrices; applying a quaternion to points is a linear, length-preserving action that broadcasts. Standardising "
     "a quaternion keeps the rotation and gives a non-negative real part, angles are never NaN, interpolation follows "
     "the great arc at constant speed with exact end points, and the quaternion built from two unit vectors is the "
     "shortest rotation carrying the first onto the second. Every item of a batch, of any shape and memory layout, gets the result it has on its own.",
     ["inputs"], "all unit quaternions and vectors, equal, opposite and nearly opposite pairs, all batch shapes",
     "Unit tests use a handful of generic quaternions; the laws are universal and fail at degenerate pairs.",
     [S + "quaternions.py"], [("products, conjugation, application, slerp", S + "quaternions.py")],
     "property-based testing: algebraic laws and an independent NumPy reference over generated quaternions",
     "algebraic laws and reference comparison at float32 and float64 accuracy")
prop("C03", "Laue groups are closed operator groups and orbits are complete",
     "For each of the eleven Laue classes the rotational operators form exactly the proper point group of that class "
     "(closed, correct order, unit norm to double precision). The orbit of an orientation or a direction contains every "
     "symmetric equivalent exactly once per operator (directions include inversion), and the orbits of equivalent inputs are the same set.",
     ["inputs", "configurations"], "all eleven Laue classes and all orientations and directions",
     "The tests check a few classes with generic inputs; closure, completeness and orbit constancy quantify over all.",
     [S + "laue_generators.py", S + "laue_fz_ori.py", S + "laue_fz_s2.py"],
     [("operator tables", S + "laue_generators.py"), ("orbits", S + "laue_fz_ori.py")],
     "property-based testing against groups generated independently by closure of generators",
     "operator tables are finite and enumerated completely; orbits are searched with generated inputs")
prop("C04", "Orientation fundamental-zone reduction is canonical and lossless",
     "Reducing an orientation to the fundamental zone of any Laue class returns a symmetrically equivalent orientation "
     "(crystal operators acting from the left) with the smallest rotation angle of its orbit, the reduction is idempotent "
     "and identical for equivalent orientations, and the membership test accepts exactly the reduced orientations. Orientations "
     "sampled in a fundamental zone all lie in it, respect the requested angular resolution and cover the zone uniformly, "
     "and the cubochoric-to-cubic-zone map stays inside the cubic zone, volume-preservingly. Every item of a batch, of any shape and memory layout, gets the result it has on its own.",
     ["inputs", "configurations"], "all orientations (including zone faces, edges and vertices), eleven Laue classes, sampling sizes",
     "Tests check one or two symmetry groups with random orientations; equivalence and canonicity are universally quantified.",
     [S + "laue_fz_ori.py", S + "laue_generators.py"],
     [("ori_to_fz_laue / ori_in_fz_laue", S + "laue_fz_ori.py"), ("sample_ori_fz_laue*", S + "laue_fz_ori.py")],
     "property-based testing with brute-force orbit minimisation as the oracle and metamorphic symmetry relations",
     "brute-force minimum over the group in float64; coverage judged statistically with wide margins")
prop("C05", "Disorientation angles are symmetry-invariant minima over the group",
     "The disorientation angle between two orientations, with equal or different Laue classes, is the smallest rotation "
     "angle over all pairs of crystal symmetry operators, is never NaN, and the returned disorientation attains it and belongs "
     "to the equivalence class. It is invariant under each crystal's symmetry, a common sample rotation and exchange of the "
     "two, is zero for equivalent orientations and satisfies the triangle inequality; the one-sided orientation angle is minimal over its group likewise. Every item of a batch, of any shape and memory layout, gets the result it has on its own.",
     ["inputs", "configurations"], "all pairs of orientations and all 121 pairs of Laue classes",
     "Tests compare a few random pairs within one class; minima over group pairs and invariance quantify over every pair.",
     [S + "laue_fz_ori.py", S + "laue_fz_misori.py"],
     [("disori_angle_laue, disorientation", S + "laue_fz_ori.py"), ("misori_to_fz_laue", S + "laue_fz_misori.py")],
     "property-based testing with a brute-force all-operator-pairs oracle and metamorphic invariance relations",
     "float64 brute force over both groups; tolerance from acos conditioning")
prop("C06", "Directions reduce to one fundamental sector of the sphere",
     "Reducing a direction with any Laue class returns a symmetrically equivalent direction inside the fundamental sector, "
     "unique for equivalent directions, and the membership test accepts exactly the sector, its edges and the poles. Directions "
     "sampled in a sector lie in it and cover it uniformly in about the requested number, and inverse-pole-figure colours are "
     "finite, lie in [0, 1] and are the same for symmetrically equivalent orientations. Every item of a batch, of any shape and memory layout, gets the result it has on its own.",
     ["inputs", "configurations"], "all directions (mirror planes, edges, poles included), eleven Laue classes, both dtypes",
     "Tests use random generic directions of a few classes; sector edges, poles and equivalence are universally quantified.",
     [S + "laue_fz_s2.py", S + "laue_fz_ori.py"],
     [("s2_to_fz_laue / s2_in_fz_laue", S + "laue_fz_s2.py"), ("ori_color_laue", S + "laue_fz_ori.py")],
     "property-based testing: half-space sector oracle, brute-force orbits and metamorphic symmetry relations",
     "sectors re-derived as half-space intersections; groups by closure")
prop("C07", "Samplers of the sphere and of rotations are uniform",
     "The Fibonacci samplers return exactly the requested number of unit vectors or quaternions, deterministic, without "
     "duplicates and evenly spread. Random rotations are unit and Haar distributed for every seed, and the cubochoric grid holds "
     "the stated number of distinct rotations spread uniformly over SO(3).",
     ["inputs", "configurations"], "all sample counts from 2 up, all modes and seeds",
     "Tests look at shapes for one size; uniformity and counts must hold for each size.",
     [S + "sampling.py"], [("s2_fibonacci_lattice, so3_fibonacci, so3_uniform_quat, so3_cubochoric_grid", S + "sampling.py")],
     "property-based testing: generated sizes with moment, nearest-neighbour and counting oracles",
     "statistical sub-checks use 6.5 sigma bands on a fixed seed")
prop("C08", "Lambert and spherical coordinate maps are equal-area bijections",
     "The square and hexagonal Lambert maps and the spherical-coordinate conversions are mutually inverse on their whole "
     "domain including centre, axes, diagonals, edges and corners. The Lambert maps preserve area up to the one global constant, "
     "return unit vectors on the correct hemisphere, and every pole, equator and seam point maps to finite values. Every item of a batch, of any shape and memory layout, gets the result it has on its own.",
     ["inputs"], "all points of the square, hexagon and sphere, both dtypes",
     "The piecewise formulas join along measure-zero seams that random unit tests never hit.",
     ["ebsdtorch/utils/rosca_lambert.py", "ebsdtorch/crystallography/kvectors.py", S + "sphere.py"],
     [("rosca_lambert, inv_rosca_lambert", "ebsdtorch/utils/rosca_lambert.py"), ("hexagon maps", "ebsdtorch/crystallography/kvectors.py")],
     "property-based testing: independent formulas, round trips and numerical Jacobians over generated points",
     "Jacobians by central differences away from seams, values also on seams")
prop("C09", "SE(3) exponential and logarithm are inverse rigid motions",
     "The exponential of every twist is the rigid motion given by the matrix exponential, for all angles from zero through pi "
     "and both dtypes, and the matrix and quaternion variants agree. The logarithm inverts it without NaN at the identity or at 180 degrees "
     "and for any batch shape, and exponentials of multiples of one twist compose additively as an isometry of points. Every item of a batch, of any shape and memory layout, gets the result it has on its own.",
     ["inputs"], "all twists with rotation angle 0..pi and any translation, all batch shapes",
     "The closed forms switch to series at thresholds and are singular at pi, which sampled tests miss.",
     ["ebsdtorch/lie_algebra/se3.py"],
     [("se3_exp_map_*, se3_log_map_*", "ebsdtorch/lie_algebra/se3.py")],
     "property-based testing: differential against a scaling-and-squaring matrix exponential, round trips and group laws",
     "oracle in float64, thresholds of the series expansions generated explicitly")


prop("C10", "Detector geometry maps pixels, directions and the sample frame consistently",
     "Converting pattern centres and tilts to a rigid motion and back recovers the pattern centres, and that motion sends "
     "every detector pixel to the sample-frame ray through it, for any detector shape, binning, mask and se(3) correction (masked "
     "components stay fixed). Projecting to the sample frame and back returns the same detector pixels, returned directions are unit "
     "vectors, and scan-position shifts move the pattern centre by the scan offset in the sample frame, each pixel of a batch of any shape as on its own.",
     ["inputs", "configurations", "histories"], "all detector shapes, pattern centres, tilts, corrections and pixel positions",
     "Tests index one detector with one pattern centre; consistency must hold for every geometry.",
     ["ebsdtorch/ebsd/geometry.py", "ebsdtorch/ebsd/project_hrebsd.py", "ebsdtorch/ebsd/fitting.py"],
     [("EBSDGeometry, bruker_geometry_to_SE3, SE3_to_bruker", "ebsdtorch/ebsd/geometry.py"), ("PC grids", "ebsdtorch/ebsd/fitting.py")],
     "property-based testing: independent ray-geometry oracle, round trips, stateful masks and offsets",
     "oracle re-derives pixel rays in float64; grazing rays excluded")
prop("C11", "Master pattern lookups interpolate the stored hemispheres",
     "Looking a direction up in a master pattern returns the bilinear interpolation of the northern or southern image at the "
     "equal-area position of that direction, exactly the stored value at pixel centres, independent of batching and of the length of a "
     "direction's representation in the square. Normalising, CLAHE, binning and device or dtype changes act on the stored "
     "images as documented in any order, and a pattern read from an EMsoft file holds the sum over all sites and the stated symmetry.",
     ["inputs", "histories"], "all directions, image sizes, histories of operations and file layouts",
     "Tests look one fixed pattern up; edges, poles, the equator and operation orders are not sampled.",
     ["ebsdtorch/ebsd/master_pattern.py", "ebsdtorch/ebsd/project_hrebsd.py", "ebsdtorch/io/read_master_pattern.py", "ebsdtorch/utils/rosca_lambert.py"],
     [("MasterPattern.interpolate", "ebsdtorch/ebsd/master_pattern.py"), ("read_master_pattern", "ebsdtorch/io/read_master_pattern.py")],
     "property-based testing: NumPy bilinear-lookup reference and stateful model of the pattern object",
     "reference in float64; HDF5 files generated in a scratch directory")
prop("C12", "Every space group and point group belongs to its Laue group",
     "The Laue group reported for each of the 230 space groups and each of the 32 crystallographic point groups is the Laue group of "
     "that crystal class, and numbers or symbols that do not exist are rejected.",
     ["inputs", "configurations"], "230 space groups, all point-group symbols and invalid input",
     "Tests check only the one space group they index.",
     ["ebsdtorch/utils/symmetry_classes.py"], [("space_group_to_laue, point_group_to_laue", "ebsdtorch/utils/symmetry_classes.py")],
     "property-based testing against the International Tables class ranges",
     "finite domain, covered completely by the generators")
prop("C13", "Chunked nearest-neighbour search equals brute force",
     "For every metric, number of neighbours, dtype and order of data chunks and query ranges, the accumulated indices and values are the "
     "best matches over all data seen so far, sorted best first, with indices counted over the whole data set. Quantised and half-precision "
     "searches agree with the exact ones up to their stated rounding.",
     ["inputs", "histories", "configurations"], "all data and query sets, all ways of chunking either",
     "Tests run a single size and chunking; ties, tiny last chunks and partial query ranges are not sampled.",
     ["ebsdtorch/utils/knn.py"], [("ChunkedKNN", "ebsdtorch/utils/knn.py")],
     "stateful property-based testing: histories of chunks against float64 brute force",
     "float32 judged within rounding; quantised results within their quantisation step")
prop("C14", "The experiment pattern store keeps patterns and metadata consistent",
     "Through any history of setting coordinates, orientations, geometry, phases, normalisation, background removal, CLAHE, NLPAR and "
     "indexing results, patterns read back by scan position or by index are those of the same physical scan point, unrelated data is left alone, "
     "and combining several indexing results keeps the best phase per pattern. Invalid requests are rejected without changing the store.",
     ["histories", "inputs"], "all scan shapes, memory layouts and histories of operations",
     "Tests exercise one construction path; the guarantees are over histories.",
     ["ebsdtorch/ebsd/experiment_pats.py"], [("ExperimentPatterns", "ebsdtorch/ebsd/experiment_pats.py")],
     "stateful property-based testing against a NumPy reference model",
     "model re-based after each step so rounding cannot accumulate")
prop("C15", "Dictionary indexing reports the best match over the whole dictionary",
     "For every scan, detector geometry, signal mask, virtual binning, metric and number of phases, each orientation reported by dictionary "
     "indexing (plain or on principal components) belongs to the fundamental-zone dictionary, carries the metric of the mean-free pattern simulated "
     "for it, and no dictionary orientation of any phase has a better one. The result does not depend on chunk sizes or on an earlier "
     "indexing of the scan, top-k lists are distinct and sorted, and patterns are left alone.",
     ["inputs", "configurations", "histories"], "all scans, geometries, masks, binnings, metrics, chunkings, phases and repeated indexing runs",
     "The tests index two random patterns once and look only at the output shape.",
     ["ebsdtorch/ebsd/indexing.py", "ebsdtorch/ebsd/experiment_pats.py", "ebsdtorch/utils/knn.py", "ebsdtorch/utils/pca_covmat.py"],
     [("dictionary_index_orientations", "ebsdtorch/ebsd/indexing.py"), ("pca_dictionary_index_orientations", "ebsdtorch/ebsd/indexing.py"),
      ("combine_indexing_results", "ebsdtorch/ebsd/experiment_pats.py")],
     "property-based testing: generated scans and histories against an exhaustive float64 simulation of the dictionary",
     "end-to-end oracle built from the independent geometry, rotation and lookup references")
prop("C16", "Streaming covariance and PCA equal the whole-data result",
     "Feeding a data set to the online covariance in any batches gives the count, mean, covariance or correlation matrix and eigenvectors of the whole "
     "data set after every batch. Oja updates keep orthonormal columns spanning the updated subspace, a Krasulina update never raises the "
     "reconstruction error of its own batch and keeps its pseudo-inverse in step, and both converge to the subspace of exactly low-rank data.",
     ["histories", "inputs"], "all data sets and all ways of cutting them into batches",
     "No test streams more than one batch; equality must hold for each way of batching.",
     ["ebsdtorch/utils/pca_covmat.py", "ebsdtorch/utils/pca_online.py"],
     [("OnlineCovMatrix", "ebsdtorch/utils/pca_covmat.py"), ("OjaPCA, KrasulinaPCA", "ebsdtorch/utils/pca_online.py")],
     "stateful property-based testing: random batch histories against NumPy on the whole data",
     "single precision judged relative to the second moment")
prop("C17", "The pattern-centre fitter returns the winner of its stated search",
     "The pattern centre and orientations returned by the spatial FFT fitter lie on the search grid, inside the requested ranges and in the dictionary, "
     "and attain the best average similarity (dot product or mutual information) over all pattern centres and orientations searched, "
     "where similarity is that of the pattern simulated at that pattern centre. Patterns are left alone.",
     ["inputs", "configurations"], "all detector shapes (odd ones too), binnings, search ranges, tilts, dictionaries and patterns",
     "There is no test of the fitter; correctness of the FFT shift bookkeeping depends on every shape and range.",
     ["ebsdtorch/ebsd/fitting.py", "ebsdtorch/utils/mutual_information.py"],
     [("spatial_fft_pc_fitter", "ebsdtorch/ebsd/fitting.py"), ("cmif", "ebsdtorch/utils/mutual_information.py")],
     "property-based testing: differential against an exhaustive real-space search",
     "small detectors, so that the search can be enumerated")
prop("C18", "Mutual information is that of the joint histogram at every shift",
     "The mutual information of two image stacks is that of their joint histogram, symmetric, zero for a constant image, and normalised as named, for "
     "any bin counts, batch broadcasting and values including both ends of the range. The shift map holds, for every circular "
     "shift, pair of images, mask and chunk size, the mutual information of the pixels that overlap inside both masks.",
     ["inputs", "configurations"], "all images, bin counts, masks, normalisations, chunk sizes and shifts",
     "The functions have no tests; each shift, bin and mask combination is a separate case.",
     ["ebsdtorch/utils/mutual_information.py"],
     [("mutual_information, binned_nmi, cmif", "ebsdtorch/utils/mutual_information.py")],
     "property-based testing: differential against explicit histograms over all shifts",
     "every shift of every generated image pair is compared")
prop("C19", "Adaptive histogram equalisation interpolates clipped tile histograms",
     "CLAHE maps every pixel by the cumulative histograms, clipped with the excess redistributed, of the tiles around it, interpolated between tile "
     "centres and bins. This holds for every image size and tile grid, divisible or not, batch, bin count, clip limit and memory layout. The output lies "
     "in [0, 1], the input is left alone, and transposing or (for divisible sizes) flipping the image does the same to the result.",
     ["inputs", "configurations"], "all images in [0, 1], tile grids, bin counts and clip limits",
     "There are no tests of the function; tile borders and padded sizes each take their own path.",
     ["ebsdtorch/preprocessing/clahe.py"], [("clahe_grayscale", "ebsdtorch/preprocessing/clahe.py")],
     "property-based testing: differential against a NumPy reference, metamorphic symmetries",
     "values within 1e-5 of a bin edge are not generated")
prop("C20", "Non-local pattern averaging is a weighted mean of the patterns nearby",
     "NLPAR returns, for each pattern of a scan, an average of the patterns in the window around it that lie inside the scan, with weights fitted so that the "
     "mean centre weight of the 3x3 windows is the one asked for. Offsetting or scaling the data, flipping or transposing the scan and "
     "reordering the pixels does the same to the output. Single patterns, equal patterns and a large centre bias return the scan; nothing becomes NaN.",
     ["inputs", "configurations"], "all scans, window radii, target weights and biases",
     "There are no tests of the function; scan borders, noise-free data and the fit depend on the whole scan.",
     ["ebsdtorch/preprocessing/nlpar.py"], [("nlpar", "ebsdtorch/preprocessing/nlpar.py")],
     "property-based testing: differential against a NumPy reference, metamorphic equivariances",
     "the reference applies where the target weight is attainable")
prop("C21", "Masks, blurs and downsampling treat every size and side alike",
     "A radial mask holds exactly the pixels inside its circle. The Gaussian blur keeps the image size, odd or even, and replaces every pixel by the normalised "
     "Gaussian average of its surroundings under reflection or zero padding. Downsampling is that blur followed by resampling of the whole image.",
     ["inputs", "configurations"], "all image sizes, kernel widths, cut-offs, paddings, factors, mask radii and centres",
     "There are no tests of these functions; odd and even sides follow different branches.",
     ["ebsdtorch/preprocessing/radial_mask.py", "ebsdtorch/preprocessing/resampling.py"],
     [("get_radial_mask", "ebsdtorch/preprocessing/radial_mask.py"), ("GaussianBlur2d, BlurAndDownsample", "ebsdtorch/preprocessing/resampling.py")],
     "property-based testing: differential against a NumPy reference, metamorphic symmetries",
     "mask pixels within 1e-3 px^2 of the circle are not judged")
prop("C22", "Factorisation returns the primes of every positive integer",
     "FactorECM returns, in ascending order, prime numbers whose product is its argument, for every positive integer, Carmichael numbers and prime powers "
     "included, and rejects others. nearly_square_factors returns two positive integers with that product whose ratio is at most the largest prime factor.",
     ["inputs"], "all positive integers of the tested sizes",
     "The search is randomised and the interesting inputs are sparse: prime powers, Carmichael numbers, equal large factors.",
     ["ebsdtorch/utils/factorize.py"], [("FactorECM, nearly_square_factors", "ebsdtorch/utils/factorize.py")],
     "property-based testing: exact oracle (product and deterministic primality)",
     "integers up to about 10^18, semiprimes up to 10^12")
prop("C23", "Wigner d tables hold the Wigner functions at every angle, degree and order",
     "For every angle in [0, pi] and maximum degree, each table entry equals the Wigner function d^l_mn of its packed position, in log space (single or double "
     "precision) and with extended exponents, however small the seeds. Look-ups at pi/2 return the right value for all signs and orders of m and n, and packed "
     "positions and (l, m, n) convert into each other, in batches of any shape.",
     ["inputs"], "all angles in [0, pi], degrees up to 330 in the search, all orders",
     "The existing test evaluates a single entry at one angle; the recursions branch on the angle and lose accuracy only where seeds underflow.",
     ["ebsdtorch/harmonics/wigner_d_logspace.py", "ebsdtorch/harmonics/wigner_d_xnum.py"],
     [("wigner_d_lt_half_pi, wigner_d_eq_half_pi, wigner_d_gt_half_pi, read_lmn_wigner_d_half_pi_table, coords_from_index", "ebsdtorch/harmonics/wigner_d_logspace.py"),
      ("wigner_d_xnum, retrieve_wigner_d", "ebsdtorch/harmonics/wigner_d_xnum.py")],
     "property-based testing: differential against the eigen-decomposition of J_y",
     "degrees above 330 not searched; high degrees compared at three of their degrees")
prop("C24", "Spherical harmonic transforms are exact expansions, real or complex",
     "For every band limit, batch and precision, the inverse transform of any coefficients is the sum of the corresponding orthonormal harmonics on the grid, and "
     "the forward transform is the quadrature against each harmonic, so band-limited signals are recovered. The real transform is the non-negative-order half "
     "of the complex one, and neither changes its input. The quadrature weights integrate polynomials, and the cosine and sine layers are orthonormal.",
     ["inputs"], "all signals, band limits 1 to 14 in the search",
     "The tests only check that the two transforms invert each other, which a wrong basis also satisfies, at three band limits.",
     ["ebsdtorch/harmonics/sht.py", "ebsdtorch/harmonics/wigner_d_logspace.py"],
     [("CSHT, RSHT, DLT, RDLT, weightedDCST", "ebsdtorch/harmonics/sht.py"), ("csht_weights_half_pi, rsht_weights_half_pi", "ebsdtorch/harmonics/wigner_d_logspace.py")],
     "property-based testing: differential against explicit harmonics and quadrature, round trips, metamorphic batching",
     "harmonics from an independent eigen-decomposition; band limits to 14")
prop("C25", "Cross-correlation volumes hold the inner product with every rotation",
     "For every pair of batches of harmonic coefficients, each voxel of the correlation volume is the inner product of the first function with the second rotated "
     "by that voxel's Euler angles. The table-reading, precomputed and complex (magnitude) versions agree with it, with or without broadcasting, and a rotated "
     "copy peaks at its rotation.",
     ["inputs"], "all coefficient batches with band limits 1 to 6",
     "No test touches this module; the result is a three-dimensional volume where a dropped order still looks like a correlation.",
     ["ebsdtorch/harmonics/sht_cc.py"], [("rs2cc_, rs2cc_fast_, cs2cc_", "ebsdtorch/harmonics/sht_cc.py")],
     "property-based testing: differential against explicitly rotated coefficients, metamorphic rotation",
     "single-precision volumes compared to 3e-6 relative to the norms")
prop("C26", "The operators of every space group are those of the International Tables",
     "For each of the 230 space groups, in either origin choice or axis setting, the generated operators are exactly the coset representatives of the group: "
     "integer rotation parts, translations inside the cell, no operator missing, repeated or foreign. They are closed under composition and inversion modulo "
     "lattice translations, and point operators are those with no translation.",
     ["inputs"], "all 230 space groups in each setting, all pairs of operators",
     "No test generates a space group; an error in one letter of a generator string corrupts one group only.",
     ["ebsdtorch/crystallography/groups.py"],
     [("generator strings, read_sg_gen_string, sg_operators", "ebsdtorch/crystallography/groups.py")],
     "property-based testing: differential against an independent Hall-symbol interpreter, group axioms",
     "whole tables compared exactly; every group is reached in each run")
prop("C27", "A unit cell's geometry, symmetry classes and site orbits are exact",
     "For every lattice, in any units, the metric and structure matrices, vector transformations, lengths, angles and products agree with the vectors drawn in "
     "Cartesian space, under any change of basis. Each site expands to exactly its orbit under the space group, and point group, Laue group, density, average "
     "weight and atomic number follow. Vectors are treated one by one in batches of any shape. Impossible cells, and angles with a vector of zero length, are refused, and a cell set to single precision describes the same vectors.",
     ["inputs"], "all lattices, space groups, settings and sites in the search",
     "No test constructs a cell; the errors show up on oblique lattices, special positions and uncommon settings only.",
     ["ebsdtorch/crystallography/unit_cell.py", "ebsdtorch/crystallography/groups.py"],
     [("Cell", "ebsdtorch/crystallography/unit_cell.py")],
     "property-based testing: differential against exact rational orbits and Cartesian geometry, metamorphic changes of basis",
     "sites whose images nearly coincide (closer than 0.002 of a cell) are not generated")
prop("C28", "Reflection lists hold every allowed reflection within the limit and no other",
     "For every cell and resolution, the table of reflections holds each index allowed by the centring and inside the limit exactly once, without the direct "
     "beam, and the table of differences covers every pair of listed reflections. The centring test refuses exactly the reflections that lattice translations "
     "extinguish.",
     ["inputs"], "all space groups, lattices and resolution limits giving up to a few hundred reflections",
     "No test builds a reflection table; a search range too small for an oblique cell only loses weak reflections.",
     ["ebsdtorch/crystallography/unit_cell.py"],
     [("Cell.get_hkl_limits, Cell.get_reflections, Cell.is_g_allowed", "ebsdtorch/crystallography/unit_cell.py")],
     "property-based testing: differential against exhaustive enumeration",
     "limits a relative 1e-6 from a plane spacing are moved off the tie")
prop("C29", "Beam-direction grids cover the sphere under the crystal's point group",
     "For every space group, setting and grid size, the directions sampled for a master pattern are nodes of the full grid, none is listed twice, and applying "
     "the point group to them reaches every node of both hemispheres. Grid indices and directions agree through the equal-area projection.",
     ["inputs"], "all 230 space groups and grids up to 24 nodes per half side",
     "No test samples directions; a wedge that is turned or loses its boundary leaves holes in patterns of a few groups only.",
     ["ebsdtorch/crystallography/kvectors.py"], [("kvectors_grid and sampling wedges", "ebsdtorch/crystallography/kvectors.py")],
     "property-based testing: exact coverage of the node set by the group's matrices",
     "operations that keep the z axis are enough for every wedge of the package")
prop("C30", "Dynamical patterns solve the scattering equations of the crystal as given",
     "For every crystal, resolution, voltages and options, the structure matrix between every two beams, wavelengths, excitation errors and site sums are those of "
     "the crystal's potential, and the master pattern is the depth-weighted intensity they imply. It is independent of chunk size and of other voltages, "
     "unchanged when the atoms are listed one by one or the origin moves, and symmetric under the point group.",
     ["inputs"], "crystals of all space groups with up to three sites and about a hundred beams, 8 to 200 kV",
     "No test computes a structure matrix or a pattern; a wrong phase, sign or index still yields plausible Kikuchi bands.",
     ["ebsdtorch/crystallography/diffraction.py", "ebsdtorch/crystallography/ebsd_master.py"],
     [("calc_lambda, calc_sgh, calc_helper_bloch_formalism, calc_helper_scatter_matrix, calc_sg", "ebsdtorch/crystallography/diffraction.py"),
      ("ebsd_master_pattern, calc_sg_batched", "ebsdtorch/crystallography/ebsd_master.py")],
     "property-based testing: differential against double-precision integration, metamorphic relations",
     "atomic factors taken from the package (C31); sign convention of the package assumed; single-precision tolerances")
prop("C31", "Electron scattering factors match their fits and absorption integrals",
     "For every element, scattering vector, thermal displacement, voltage and option, the real part is the published fit times Debye-Waller and Lorentz factors, "
     "and the absorptive part is the diffuse-scattering integral plus core losses, never negative. Exponential integrals are accurate on the whole axis, and each "
     "entry of a batch equals the entry computed alone.",
     ["inputs"], "elements 1 to 98, vectors 0 to 50 / Angstrom, displacements including zero",
     "No test evaluates a scattering factor; the errors sit in particular ranges of the special functions or in zero displacements.",
     ["ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py", "ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py",
      "ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py"],
     [("scatter_factor_WK, expi, exp1, RIH1_torch_where, RIH2_torch", "ebsdtorch/crystallography/scattering_factors/scattering_factors_WK.py"),
      ("scatter_factor_hybrid", "ebsdtorch/crystallography/scattering_factors/scattering_factors_Hybrid.py"),
      ("scatter_factor_LVD, simpson_composite, eval_LVD_fit", "ebsdtorch/crystallography/scattering_factors/scattering_factors_LVD_TCB.py")],
     "property-based testing: differential against 30-digit arithmetic and direct quadrature",
     "single precision only above 1 / Angstrom; series approximation of the package within 0.2%")
prop("C32", "Electron Monte Carlo counts every exit once, at the model's rates",
     "A run of the backscattered-electron simulation counts each exiting electron in exactly one bin of energy, depth and direction, as long as its bins cover it, and stops at the "
     "stated numbers of exits or simulations. The counts are distributed as those of an independent simulation of Joy's single-scattering model for the same material, beam and "
     "binning. The directions are binned on the equal-area square of the hemisphere.",
     ["inputs", "schedules"], "materials, beam energy, tilt and azimuth, batch sizes, step and simulation limits, numbers and widths of bins, precisions, random states",
     "No test runs the simulation; a lost count or a biased angle shows only in totals and histograms.",
     ["ebsdtorch/simulation/monte_carlo.py"],
     [("bse_sim_mc, rosca_lambert", "ebsdtorch/simulation/monte_carlo.py")],
     "property-based testing: conservation of counts, and two-sample tests against an independent NumPy simulation",
     "histograms of some 10^4 exits; biases below a percent or so are not seen")
prop("C33", "Orientation refinement takes the best local match and never a worse one",
     "At every iteration, grid refinement replaces the orientation of each pattern by the best-matching one of the stated local grid around it, in the fundamental zone, shrinks the grid "
     "only after its centre won, and reports the matches it took. Gradient refinement returns unit orientations in the fundamental zone that match no worse than the ones it was given, "
     "and improves orientations that are off. Both work per pattern, with the phase and source position of that pattern, whatever the batch size.",
     ["inputs", "configurations"], "detectors, phases, Laue groups, master patterns, starting orientations, grids, iterations, batch sizes, binnings, precisions",
     "No test refines an orientation; the updates of single patterns, absent phases, odd grid radii and separate source positions each take their own path.",
     ["ebsdtorch/ebsd/refining.py", "ebsdtorch/ebsd/master_pattern.py", "ebsdtorch/ebsd/experiment_pats.py"],
     [("get_local_orientation_grid, orientation_grid_refinement, orientation_grad_refinement", "ebsdtorch/ebsd/refining.py")],
     "property-based testing: step-by-step model of the search, never-worse invariant, recovery of known orientations",
     "small detectors and grids; steps whose two best candidates tie within rounding are not judged")
prop("C34", "Derivatives used for fitting equal those of the functions and are finite",
     "Where geometry, orientation or deformation are fitted by backpropagation, the derivatives of the exponentials, geometry, master pattern lookup, quaternion operations and simulated patterns "
     "equal those of the functions themselves. They stay finite at the identity and other starting points of a fit.",
     ["inputs"], "twists at and near the identity, masks of optimised parameters, master patterns, lookup modes, binnings, quaternions, deformation gradients",
     "Tests check function values; a detached, in-place or singular derivative leaves every value right and the fit wrong.",
     ["ebsdtorch/ebsd/geometry.py", "ebsdtorch/lie_algebra/se3.py", "ebsdtorch/ebsd/master_pattern.py", "ebsdtorch/ebsd/project_hrebsd.py", "ebsdtorch/s2_and_so3/quaternions.py"],
     [("se3_exp_map_om, se3_exp_map_split", "ebsdtorch/lie_algebra/se3.py"), ("EBSDGeometry.get_coords_sample_frame", "ebsdtorch/ebsd/geometry.py"),
      ("MasterPattern.interpolate", "ebsdtorch/ebsd/master_pattern.py"), ("project_hrebsd", "ebsdtorch/ebsd/project_hrebsd.py")],
     "property-based testing: backpropagated directional derivatives against central differences",
     "kinks (pixel borders) are judged for finiteness only")

prop("C35", "OpenCL Monte Carlo driver gathers, sizes and resamples exit histograms",
     "The OpenCL kernel counts each trajectory at most once, distributed as an independent simulation of Joy's model in linear and logarithmic depth bins; its random states follow LFSR113. The simulator launches it "
     "with the crystal's mean atomic number, weight and density until the stated number of exits is reached, and returns the sum without the bins above the voltage, mirrored for zero "
     "azimuth. The step limit found is the smallest that fills every energy. Resampling in depth interpolates the counts per unit of depth inside the range of the bins.",
     ["inputs", "schedules"], "materials, beams, binnings, numbers of electrons, trials and launches, step limits, histograms and linear depth grids",
     "The module cannot even be imported without a GPU stack, so no test reaches it; histograms of any shape come out plausible.",
     ["ebsdtorch/crystallography/ebsd_mc.py"],
     [("EBSD_MC_KERNEL", "ebsdtorch/crystallography/ebsd_mc.py"), ("MonteCarloSimulator", "ebsdtorch/crystallography/ebsd_mc.py")],
     "property-based testing: the kernel compiled for the host against an independent simulation, and a scripted kernel behind a stand-in for pyopencl",
     "work items run one after another, so races between them are not explored")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "hook_needed": None}}) + "\n")
    na = {x["property"] for x in NA}
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py", "checks": [], "not_applicable": NA,
           "notes": "All checks import ebsdtorch from /repo's working tree; no hooks. See DESIGN.md."}
    for p in P:
        if p["id"] in na:
            continue
        man["checks"].append({
            "property": p["id"], "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % p["id"],
            "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
