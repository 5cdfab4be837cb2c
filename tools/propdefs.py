H, S, C, I, F, CF, PR = "histories", "schedules", "crash_points", "inputs", "fault_sequences", "configurations", "programs"

prop("C01", "Streaming nearest-neighbour search is exact for every arrival schedule",
 "However the data and the queries are cut into chunks, in whatever order query slices are delivered and whenever results are read, the search returns for every query the k true nearest data entries by global index, sorted best first, with their true metric values. Chunks smaller than k, scores of any sign, and quantised arithmetic (within its resolution) are no exception. The caller's tensors are never modified.",
 [S, I, CF], "every partition of the data and the queries into chunks, every delivery order of query slices, every read point, metric, dtype and k",
 "The tests run one dictionary-indexing configuration with one chunk size; exactness depends on running top-k state merged across an unbounded family of schedules.",
 ["utils/knn.py"], [("running top-k merge", "utils/knn.py:ChunkedKNN.query_all/query_chunk"), ("global index offset", "utils/knn.py:ChunkedKNN.set_data_chunk")],
 [("running best lists", "k best scores and indices per query so far"), ("data offset", "global index of the first entry of the current chunk")], ["returned indices and distances"])

prop("C02", "A failed nearest-neighbour step changes nothing and can be retried",
 "If setting a data chunk or delivering queries fails (out of memory, malformed input), what the search reports is exactly what it reported before the failing call, and repeating the call gives the answer of an uninterrupted search. A failed data chunk never consumes index positions, and no query is ever left with an index that does not belong to its score.",
 [F, S], "every allocation failure point and rejected call at any position of any chunk schedule",
 "No test makes an operation fail; atomicity depends on the failure point inside a step.",
 ["utils/knn.py"], [("commit after computing", "utils/knn.py:ChunkedKNN.query_all/query_chunk/set_data_chunk")],
 [("running best lists", "indices and scores must change together")], ["retrieved top-k before and after the failing call"])

prop("C03", "Disjoint query slices may be searched concurrently",
 "Threads that deliver disjoint query slices to one shared search between two data chunks produce the same answer as delivering them one after the other, under every interleaving. No slice's result is lost, duplicated or attributed to another slice.",
 [S], "every interleaving (at line granularity) of threads delivering disjoint slices, for every chunk schedule",
 "No test uses threads; the property is over interleavings.",
 ["utils/knn.py"], [("slice-wise update of disjoint rows", "utils/knn.py:ChunkedKNN.query_chunk")],
 [("shared best lists", "rows written by different threads")], ["retrieved top-k"])

prop("C04", "Streaming mean, covariance and components do not depend on batching",
 "Feeding a data set in any batches and order gives the mean, covariance, correlation and principal components of the whole set, to the accuracy of the working precision, including single-row batches, empty batches and data with a large common offset. Reading intermediate results any number of times does not change later ones, and never more observations are counted than were fed.",
 [S, I, CF], "every partition and permutation of the rows into batches, every interleaving of reads, dtype and offset",
 "A test can try a few partitions; accuracy loss and state corruption depend on the batch history.",
 ["utils/pca_covmat.py"], [("pairwise (Chan) update of mean and second moment", "utils/pca_covmat.py:update_online_covmat"), ("normalisation on read", "utils/pca_covmat.py:OnlineCovMatrix.get_covmat")],
 [("observation count, mean, second moment", "sufficient statistics accumulated so far")], ["covariance, correlation, eigenvectors"])

prop("C05", "A failed streaming update leaves statistics and components untouched",
 "If an update of the streaming covariance or of an online principal-component estimator fails part way (out of memory, malformed batch), the estimator is exactly as before the call, and repeating the batch gives exactly the uninterrupted result. This holds at every failure point inside the update.",
 [F, S], "every allocation failure point in every update of any batch history",
 "No test injects failures.",
 ["utils/pca_covmat.py", "utils/pca_online.py"], [("compute before commit", "utils/pca_covmat.py:OnlineCovMatrix.forward"), ("compute before commit", "utils/pca_online.py:OjaPCAExp.forward, KrasulinaPCA.forward")],
 [("estimator state", "buffers, step counter, active columns")], ["state dictionary", "transform output"])

prop("C06", "Checkpoint and restore at any point continues exactly",
 "Saving the state of a streaming estimator, a master pattern or a detector geometry at any point of its history, restoring it into a fresh object of the same configuration and continuing gives exactly what the uninterrupted object gives. Everything observable later (results, trainable corrections, cached values) is covered by the saved state.",
 [C, H, CF], "every crash point in any history of updates, only the saved state surviving",
 "No test saves or restores anything.",
 ["utils/pca_covmat.py", "utils/pca_online.py", "ebsd/master_pattern.py", "ebsd/geometry.py"], [("registered buffers and parameters", "utils/pca_covmat.py, utils/pca_online.py, ebsd/master_pattern.py, ebsd/geometry.py constructors")],
 [("durable state", "what state_dict holds")], ["outputs after restore"])

prop("C07", "Online principal components keep their invariants on every stream",
 "The orthonormal estimator (Oja++) stays orthonormal after every batch (a column from the batch after its activation on), each update is the documented one applied to the previous basis, and its columns activate on schedule. The estimator that keeps a general matrix (Krasulina) has a projection and a reconstruction that are mutually inverse. On a stationary stream with a clear spectral gap both converge to the leading subspace, for any cut of the stream into batches.",
 [S, I, CF], "every batch-size schedule, stream, number of components, learning-rate decay and activation setting",
 "Tests do not touch the online estimators; invariants are over histories.",
 ["utils/pca_online.py"], [("QR retraction and column activation", "utils/pca_online.py:OjaPCAExp.forward"), ("running cross moments", "utils/pca_online.py:KrasulinaPCA.forward")],
 [("basis, step counter, active columns", "estimator state")], ["transform, inverse transform, reconstruction error"])

prop("C08", "Master pattern values depend on the direction only, not on the access history",
 "Interpolating a master pattern at a direction gives the bilinear Lambert value of its current data at the requested binning, whatever was asked before: other shapes, other binnings, normalisation or contrast steps, cache overflow, failed calls, reloaded data. Asking never changes the stored pattern or the caller's coordinates.",
 [H, F, I], "every sequence of interpolation, binning, normalisation, contrast and reload operations, with failures anywhere",
 "Tests interpolate once per configuration; caches make the answer history dependent.",
 ["ebsd/master_pattern.py", "utils/rosca_lambert.py"], [("factor cache and binned copy", "ebsd/master_pattern.py:MasterPattern.interpolate")],
 [("factor cache", "shape used per number of directions"), ("binned pattern cache", "reduced copy for virtual binning")], ["interpolated values"])

prop("C09", "One master pattern can be interpolated from several threads",
 "Threads interpolating the same master pattern concurrently, with any mixture of shapes and binnings, each get the value a lone thread would get, under every interleaving and also while the shape cache overflows.",
 [S, H], "every interleaving of concurrent interpolations including cache resets",
 "No test uses threads.",
 ["ebsd/master_pattern.py"], [("check-then-use of shared caches", "ebsd/master_pattern.py:MasterPattern.interpolate")],
 [("shared caches", "factor cache and binned copy")], ["interpolated values"])

prop("C10", "Integer factorisation terminates and multiplies back for every random stream",
 "For every positive integer the factors returned are primes in ascending order whose product is the integer, and the nearly-square split returns two factors of it whose ratio is at most its largest prime factor, whatever the random number stream does, including adversarial streaks. It terminates within a bounded number of steps, and integers that cannot be factored are rejected rather than looped on.",
 [I, S], "every positive integer of the sizes in use and every stream of random draws containing finite adversarial bursts",
 "The algorithm is randomised; tests see one stream and few integers.",
 ["utils/factorize.py"], [("Pollard-rho / ECM loop with random restarts", "utils/factorize.py"), ("nearly square split", "utils/factorize.py:nearly_square_factors")],
 [("pending cofactors", "work list of the factorisation")], ["returned factors"])

prop("C11", "Dictionary indexing finds the best dictionary entry for every pattern",
 "For every pattern the reported orientations are dictionary orientations whose simulated patterns score best under the chosen metric, masks, binning and background option, independent of how dictionary and experiment are chunked, of the order in which the dictionary is generated and of the random seed. Experimental patterns, master pattern and geometry are not changed.",
 [S, CF, I], "every chunking of dictionary and patterns, seed, metric, mask, top-k, phase and geometry configuration",
 "The two indexing tests need a master pattern file that is not shipped and use one configuration.",
 ["ebsd/indexing.py", "utils/knn.py", "ebsd/experiment_pats.py", "s2_and_so3/sampling.py"], [("dictionary streaming", "ebsd/indexing.py:dictionary_index_orientations")],
 [("streamed dictionary and running best", "indexing loop state")], ["orientations and metrics of the experiment"])

prop("C12", "PCA dictionary indexing equals search in the true component space",
 "PCA indexing reports for every pattern the entries that are nearest in the space of the leading principal components of the dictionary, independent of batch sizes, of how often the components were updated and of the random seed.",
 [S, CF], "every batch schedule, number of components, metric, mask and seed with a clear eigenvalue gap",
 "The PCA test needs a file that is not shipped and one configuration.",
 ["ebsd/indexing.py", "utils/pca_covmat.py", "utils/knn.py"], [("two-pass streaming", "ebsd/indexing.py:pca_dictionary_index_orientations")],
 [("covariance state and projected dictionary", "two passes over the dictionary")], ["orientations and metrics of the experiment"])

prop("C13", "Multi-phase assignment picks the best phase, for every indexing history",
 "With several phases each pattern gets the phase, orientation and metric of its best match over all phases indexed in the last run, whatever was indexed before and in whatever order phases are given. Re-indexing never mixes results of an earlier run into a later one.",
 [H, S, I], "every sequence of indexing runs with varying phases, top-k and metrics",
 "Tests index one phase once.",
 ["ebsd/experiment_pats.py", "ebsd/indexing.py"], [("raw result store and combination", "ebsd/experiment_pats.py:EBSDPatterns/ExperimentPatterns.combine_indexing_results")],
 [("raw per-phase results", "kept between runs")], ["phases, orientations, metrics"])

prop("C14", "An interrupted indexing or refinement run leaves usable, consistent data",
 "If indexing or refinement is interrupted at any point or runs out of memory, patterns, master patterns and geometry are unchanged, and every stored field (orientation, phase, metric) of every pattern has its old or its final value; after running out of memory the fields of one pattern are all old or all new. Running the call again from the same records gives exactly the result of an uninterrupted run.",
 [C, F], "every interruption point (source line) and allocation failure point of a run",
 "No test interrupts anything.",
 ["ebsd/indexing.py", "ebsd/refining.py", "ebsd/experiment_pats.py"], [("results committed at the end", "ebsd/indexing.py, ebsd/refining.py")],
 [("per-pattern records", "orientation, phase, metric")], ["patterns and records after the interruption and after the rerun"])

prop("C15", "Grid refinement never worsens a pattern and is batch independent",
 "Refining orientations on the local grid gives every pattern a match at least as good as before and equal to the best one on its own grid, independent of batch size and of the other patterns in the batch, also with one pattern, an empty phase or several phases. Only orientations are changed, and they stay in the fundamental zone of their phase.",
 [S, CF, I], "every batch size, pattern subset, phase split and grid",
 "The refinement is not tested at all.",
 ["ebsd/refining.py"], [("batched grid evaluation", "ebsd/refining.py:grid_search_refine/orientation_grid_refinement")],
 [("current best per pattern", "refinement loop state")], ["orientations of the experiment"])

prop("C16", "Gradient refinement never returns a worse match than it was given",
 "Gradient refinement of orientations returns for every pattern a match at least as good as the starting one, whatever the learning rate and the number of steps, and a better one where the true orientation is within reach of moderate steps. The result does not depend on batch size or on the other patterns, and only orientations are changed, which stay in the fundamental zone of their phase.",
 [S, CF, I], "every batch size, learning rate, step count and starting error",
 "The refinement is not tested at all.",
 ["ebsd/refining.py"], [("best-so-far tracking", "ebsd/refining.py gradient loop")],
 [("best orientation so far", "per pattern")], ["orientations of the experiment"])

prop("C17", "The experiment record store behaves like a table under any operation history",
 "Setting and reading patterns, orientations, phases, metrics and positions by index behaves like a table with one row per pattern: a read returns the last value written to that row, other rows never change, and rejected operations change nothing. Patterns selected by phase are exactly the rows assigned to that phase.",
 [H, F], "every sequence of reads, writes, rejected operations and failing allocations on an experiment",
 "Tests construct the store once and read it once.",
 ["ebsd/experiment_pats.py"], [("indexed accessors", "ebsd/experiment_pats.py:ExperimentPatterns")],
 [("per-pattern arrays", "patterns, orientations, phases, metrics, positions")], ["accessor results"])

prop("C18", "Pattern clean-up is per pattern, batch independent and safe to interrupt",
 "Normalisation, background subtraction, contrast equalisation and neighbour averaging give each pattern its documented result whatever the batch size, keep the shape of the data set, and if one step fails the data set is either before or after that step, so that repeating it completes the clean-up.",
 [F, S, I], "every batch size, order of clean-up steps and failure point",
 "No test cleans patterns or fails half way.",
 ["ebsd/experiment_pats.py", "preprocessing/clahe.py", "preprocessing/nlpar.py"], [("batched in-place clean-up", "ebsd/experiment_pats.py:ExperimentPatterns")],
 [("pattern array", "modified in place in batches")], ["patterns after clean-up"])

prop("C19", "Monte Carlo tally counts every backscattered electron exactly once",
 "The direction and energy histogram of a simulation holds exactly one count for every electron that escaped in range, for every random stream and batch size, also when several electrons of one step fall into the same bin. The simulation stops after a bounded number of steps with the requested number of electrons accounted for.",
 [S, I, CF], "every random stream (including adversarial values and coincident electrons), batch size and material setting",
 "No test runs the simulation; coincidences depend on the stream.",
 ["simulation/monte_carlo.py"], [("scatter-add of a batch into the histogram", "simulation/monte_carlo.py")],
 [("accumulated histogram", "counts per energy and direction bin")], ["returned histogram"])

prop("C20", "Device Monte Carlo accumulates every batch once or fails loudly",
 "The device-based Monte Carlo asks every requested work item for exactly its share, adds every completed launch exactly once, converts energies, depths and directions to the right bins, and a device failure surfaces as an error instead of a silently short result. No two work items or launches replay the same random stream, and resampling the depth histogram reproduces the density it describes.",
 [F, S, CF], "every device response pattern: launches that fail, are slow, return partial or extreme values",
 "There is no OpenCL device here or in the tests.",
 ["crystallography/ebsd_mc.py"], [("launch loop", "crystallography/ebsd_mc.py")],
 [("accumulators", "energy and depth histograms")], ["returned arrays"])

prop("C21", "Loading a master pattern file is all or nothing",
 "Loading a master pattern gives the stored hemispheres summed as requested with the stored symmetry for every layout the loader supports, and an I/O error or a truncated, incomplete or contradictory file is reported as an error, never as wrong data. The file handle is released in every case, and a later load succeeds.",
 [F, I, C], "every read error, short read and truncation point of the file",
 "No master pattern file is shipped with the tests.",
 ["io/read_master_pattern.py"], [("file context manager", "io/read_master_pattern.py:read_master_pattern")],
 [], ["returned master pattern", "open handles"])

prop("C22", "Progress reporting never disturbs the computation it wraps",
 "Wrapping an iteration in the progress display yields every item exactly once and in order, under clock jumps, zero elapsed time, any total and any prefix, on streams of any encoding, taking nothing from the source ahead of time, and ends cleanly when the consumer stops early or the source raises. Output goes to the requested stream only and states the true count.",
 [F, S, I], "every clock behaviour (jumps back and forth, stalls), stream behaviour and consumption pattern",
 "The tests never control the clock.",
 ["utils/progressbar.py"], [("generator with elapsed-time estimate", "utils/progressbar.py:progressbar")],
 [("start time and count", "estimate state")], ["yielded items, written text"])

prop("C23", "Pattern-centre fitting is independent of batching and leaves its inputs alone",
 "Fitting the detector geometry returns a pattern centre within the requested range whose mean best match over the patterns is the highest of all searched centres, and for every pattern the dictionary orientation that matches best there, for every dictionary batch size and random state, with either metric, and for each of several fits that run at once. The caller's patterns and the master pattern are unchanged, also after a failed or interrupted fit, which can be repeated.",
 [S, CF, I], "every batch size of patterns and dictionary and every seed",
 "The fit is not tested.",
 ["ebsd/fitting.py"], [("batched best-match search", "ebsd/fitting.py")],
 [("best match per pattern", "loop state")], ["returned fit"])

prop("C24", "Detector geometry depends on its parameters only, not on option history",
 "A geometry reports directions and coordinates determined by its current parameters and enabled corrections, whatever sequence of enabling, disabling, training and restoring led there and from however many threads it is read; projecting and back-projecting are inverse to each other, the pose converts back to the pattern centre and tilts it stands for, and a binned detector's pixel is the centre of the pixels it replaces. Failed or rejected option changes leave it as it was.",
 [H, F, CF], "every sequence of option changes, gradient steps and restores",
 "Tests build a geometry once with defaults.",
 ["ebsd/geometry.py", "lie_algebra/se3.py"], [("trainable flags and parameters", "ebsd/geometry.py:EBSDGeometry")],
 [("parameters and flags", "pattern centre, tilt, deformation")], ["coordinates, gradients"])

prop("C25", "Orientation sampling covers the requested zone for every random state",
 "A deterministic orientation grid lies in the requested fundamental zone, covers it without gaps at the requested resolution, and is the same set whatever the random state, earlier requests, permutation or failures before it; Fibonacci lattices are as even as the published ones. Every random sampler returns finite unit quaternions, in the zone if one is asked for, for every random stream, extreme values included.",
 [S, I, H], "every random stream and seed, resolution, symmetry and history of requests",
 "Tests see one stream and one resolution.",
 ["s2_and_so3/sampling.py", "s2_and_so3/laue_fz_ori.py", "s2_and_so3/quaternions.py"], [("grid then optional permutation", "s2_and_so3/sampling.py:so3_sample_fz_laue")],
 [], ["returned quaternions"])

prop("C26", "Spherical harmonic transforms hold in any history, layout and thread",
 "Forward and inverse spherical-harmonic transforms equal the harmonic sums and quadratures they stand for at every grid point, order and degree, for every batch and memory layout, and whatever was transformed before, concurrently, or failed on the same object. Correlations on the rotation group equal their explicit sums, inputs and precomputed tables stay unmodified, and tables do not depend on the batching they were built with.",
 [H, S, F], "every history and interleaving of transforms on one object, with failures",
 "Tests transform once per object.",
 ["harmonics/sht.py", "harmonics/sht_cc.py", "harmonics/wigner_d_logspace.py"], [("precomputed buffers", "harmonics/sht.py, harmonics/sht_cc.py")],
 [("precomputed Legendre tables", "shared by all calls")], ["coefficients and maps"])

prop("C27", "A crystal means the same in every description, precision and history",
 "Whatever conversions of precision, rejected calls and failures a unit cell has been through, its symmetry operators and groups, metric, frame changes, lengths, angles, atom orbits, density and averages describe the same crystal, whether its atoms are listed by space group (either origin, rhombohedral cells converted to hexagonal axes) or one by one and whatever the units; a conversion that fails leaves the cell as it was. Its list of reflections holds every reflection that the lattice allows down to the requested spacing exactly once, without the direct beam.",
 [H, F, CF], "every lattice, space group and setting, and every history of conversions and failures on the cell",
 "No test builds a unit cell.",
 ["crystallography/unit_cell.py", "crystallography/groups.py"], [("attributes converted one by one", "crystallography/unit_cell.py:Cell.set_fp_dtype")],
 [("metric and structure matrices, orbits", "attributes of Cell")], ["frame changes, reflections, composition"])

prop("C28", "A simulated master pattern depends on crystal, voltages and depths only",
 "Each intensity of a dynamically simulated master pattern equals the depth-weighted integral of the beam equations for its direction and voltage, whatever the chunk size, the other voltages simulated with it, the description of the crystal, or failed and concurrent simulations before it. The caller's cell and weights stay unchanged, and the computed sector of directions, completed by the symmetry of the crystal, covers the whole hemisphere with equal intensities in equivalent directions.",
 [F, S, CF], "every chunk size, voltage grouping, structure, depth grid, interleaving and failure point",
 "No test runs the dynamical simulation.",
 ["crystallography/ebsd_master.py", "crystallography/diffraction.py", "crystallography/kvectors.py"], [("loop over voltages and chunks of directions", "crystallography/ebsd_master.py:ebsd_master_pattern")],
 [("accumulated depth integral", "loop state")], ["returned master pattern"])


# numeric layers: decided through their call histories (batch shapes, layouts and precisions that change between calls to compiled functions,
# failing allocations, arrays shared by preempted threads), see sim/props/_kern.py
ALWAYS = " This holds for every batch shape, memory layout and precision, whatever was computed before, after failed calls and for concurrent callers; the given values are never modified."
OVER = ", batch shape, layout and precision, every order of calls and every failing allocation and interleaving of callers sharing arrays"
KSTATE = [("compiled specialisations", "TorchScript state left by earlier calls"), ("shared arrays", "inputs read by several threads")]
KOBS = ["returned values", "inputs after the call"]

prop("C29", "A rotation stays the same rotation through every conversion",
 "Converting rotations between quaternions, matrices, Bunge angles, axis-angle, Rodrigues, homochoric, cubochoric and 6D vectors always yields the same rotation, in the range of the representation, to working precision, including no rotation, tiny rotations, half turns and rotations at the borders of a representation. This holds for every batch shape, memory layout and precision, whatever was converted before, after failed conversions and for concurrent callers; the given values are never modified.",
 [I, S, F, H], "every rotation, chain of conversions, batch shape, layout and precision, every order of calls and every failing allocation and interleaving of callers sharing arrays",
 "Tests convert random rotations in one flat batch; borders have measure zero, and compiled functions specialise on the calls made before.",
 ["s2_and_so3/orientations.py"], [("conversion functions", "s2_and_so3/orientations.py")], [("compiled specialisations", "TorchScript state left by earlier calls"), ("shared arrays", "inputs read by several threads")], ["converted values", "inputs after the call"])
prop("C30", "Reduction to a fundamental zone picks one representative per class",
 "Reducing orientations or directions to the fundamental zone of a Laue group gives a symmetry-equivalent element inside the zone (rotations that give the same crystal directions up to the group), the same for all equivalent inputs, and the disorientation angle is the smallest over both classes and symmetric in its arguments; every space and point group belongs to its Laue group, and equivalent orientations are coloured alike." + ALWAYS,
 [I, S, F, H], "every orientation, direction and Laue group" + OVER, "Tests sample random orientations of few groups; borders have measure zero.",
 ["s2_and_so3/laue_fz_ori.py", "s2_and_so3/laue_fz_s2.py", "s2_and_so3/laue_fz_misori.py", "s2_and_so3/laue_generators.py"], [("reduction", "s2_and_so3/laue_fz_ori.py:ori_to_fz_laue"), ("direction zones", "s2_and_so3/laue_fz_s2.py"), ("disorientation", "s2_and_so3/laue_fz_misori.py")], KSTATE, KOBS)
prop("C31", "Wigner d matrices are accurate at every degree",
 "The Wigner small-d values of both implementations are the elements of the rotation generator's exponential (in the code's sign convention) to working precision at every degree, order and angle, 0 and a half turn included; values of all orders, negative ones included, follow from the stored table by its symmetries, position in the table and degree and orders determine each other, and the value at one angle does not depend on what else is computed." + ALWAYS,
 [I, S, F, H], "every degree, order and angle" + OVER, "Tests compare a few degrees and angles with one reference.",
 ["harmonics/wigner_d_logspace.py", "harmonics/wigner_d_xnum.py"], [("recursions in extended range", "harmonics/wigner_d_xnum.py:wigner_d_xnum"), ("recursions in logarithms", "harmonics/wigner_d_logspace.py"), ("look-up by symmetry", "harmonics/wigner_d_xnum.py:retrieve_wigner_d")], KSTATE, KOBS)
prop("C32", "Rigid motions and their logarithms are inverse to each other",
 "The exponential of a twist is the rigid motion it generates, and exponential and logarithm are inverse to each other, also at and near the identity and half turns, with finite gradients, in the matrix and the quaternion form." + ALWAYS,
 [I, S, F, H], "every twist" + OVER, "Tests sample random twists.",
 ["lie_algebra/se3.py"], [("series near zero", "lie_algebra/se3.py:w_exp_vmat"), ("logarithm", "lie_algebra/se3.py:se3_log_map_split")], KSTATE, KOBS)
prop("C33", "The equal-area square and hemisphere maps are inverse to each other",
 "Mapping a direction to the square and back gives the same direction, the square and hexagon maps preserve area and end on the unit hemisphere, both hemispheres meet at the edge, and declination and azimuth name the documented direction, the centre, diagonals and corners included." + ALWAYS,
 [I, S, F, H], "every direction and point" + OVER, "Not tested directly; the centre and diagonals have measure zero.",
 ["utils/rosca_lambert.py", "s2_and_so3/sphere.py", "crystallography/kvectors.py"], [("Rosca-Lambert maps", "utils/rosca_lambert.py"), ("angle maps", "s2_and_so3/sphere.py")], KSTATE, KOBS)
prop("C34", "Electron scattering factors follow their formulas and each other",
 "Scattering factors (elastic and absorptive, with and without core losses and phonon scattering) are those of their defining formulas for every voltage, element, angle and thermal displacement of a call, forward scattering and atoms at rest included; they are finite, agree between the parametrisations within the error of the fits, and approach the Coulomb limit; the exponential integrals, quadratures and wavelengths they rest on are accurate everywhere." + ALWAYS,
 [I, S, F, H], "every element, angle, voltage and thermal displacement" + OVER, "Not tested.",
 ["crystallography/scattering_factors/scattering_factors_WK.py", "crystallography/scattering_factors/scattering_factors_Hybrid.py", "crystallography/scattering_factors/scattering_factors_LVD_TCB.py"], [("fits and absorptive integrals", "crystallography/scattering_factors/scattering_factors_WK.py:scatter_factor_WK"), ("hybrid of two fits", "crystallography/scattering_factors/scattering_factors_Hybrid.py:scatter_factor_hybrid"), ("absorption by quadrature", "crystallography/scattering_factors/scattering_factors_LVD_TCB.py:scatter_factor_LVD")], KSTATE, KOBS)
prop("C35", "Mutual information is symmetric, non-negative and maximal for equal images",
 "The binned mutual information of two images is that of their joint histogram: non-negative, symmetric, unchanged by permuting pixels and largest for an image with itself, constant images and values at the ends of the range included, and each batch entry is independent of the others; the cross mutual information of two images is, for every shift, that of the pixels that overlap inside both masks." + ALWAYS,
 [I, S, F, H], "every pair of images and bin count" + OVER, "Not tested.",
 ["utils/mutual_information.py"], [("joint histogram by scatter", "utils/mutual_information.py:mutual_information"), ("joint histogram by histc", "utils/mutual_information.py:binned_nmi"), ("correlation of levels", "utils/mutual_information.py:cmif")], KSTATE, KOBS)
prop("C36", "Detector pixels, masks and deformed projections follow their geometry",
 "A radial mask keeps exactly the pixels closer to its centre than its radius; the direction of a (binned) detector pixel is that of its centre moved by the rigid motion, turned into the crystal and deformed, so that the identity deformation changes nothing and a rotation as deformation turns the crystal; pattern centres and tilts convert to rigid motions and back, and a projected pattern has the master pattern's value in every direction." + ALWAYS,
 [I, S, F, H], "every detector, binning, radius, motion, orientation and deformation" + OVER, "Not tested.",
 ["preprocessing/radial_mask.py", "ebsd/project_hrebsd.py", "ebsd/fitting.py", "ebsd/geometry.py"], [("mask", "preprocessing/radial_mask.py:get_radial_mask"), ("directions in a deformed crystal", "ebsd/project_hrebsd.py:hrebsd_coords"), ("pixel grids", "ebsd/fitting.py:get_3D_pixel_coords_with_periphery"), ("pattern centres", "ebsd/geometry.py:bruker_geometry_to_SE3")], KSTATE, KOBS)
prop("C37", "Quaternion arithmetic composes, inverts, applies and interpolates rotations",
 "Products, conjugates, norms, angles, actions on vectors, spherical interpolation and rotations between directions are those of the rotations they stand for, equal, opposite and nearly so arguments included, broadcasting over batches like any arithmetic." + ALWAYS,
 [I, S, F, H], "every pair of rotations and vectors" + OVER, "Not tested directly; equal and opposite arguments have measure zero.",
 ["s2_and_so3/quaternions.py"], [("products", "s2_and_so3/quaternions.py:qu_prod"), ("interpolation", "s2_and_so3/quaternions.py:qu_slerp"), ("rotation between directions", "s2_and_so3/quaternions.py:quaternion_rotate_sets_sphere")], KSTATE, KOBS)
prop("C38", "Blurring and downsampling keep the size, the level and the position",
 "A Gaussian blur gives an image of the size given, odd sides included, that is its convolution with the normalised symmetric Gaussian of the width and cut-off asked for, with mirrored or empty surroundings; blurring and downsampling gives the whole pixels of side / factor, interpolated from the blurred image over its full extent, so that a level stays a level and nothing moves." + ALWAYS,
 [I, S, F, H], "every image size, width, cut-off, factor and interpolation" + OVER, "Not tested.",
 ["preprocessing/resampling.py"], [("blur", "preprocessing/resampling.py:GaussianBlur2d"), ("downsampling", "preprocessing/resampling.py:BlurAndDownsample")], KSTATE, KOBS)
prop("C39", "Analyses of scans see their inputs as they are and never affect each other",
 "Indexing and refining a scan use the master patterns, the geometry and the patterns as they are at the call, whatever was analysed, changed, failed or interrupted before and while other scans are analysed at the same time with the same master patterns and geometry; an analysis changes nothing but the results of its own scan. A failed analysis that is repeated gives what an undisturbed one gives.",
 [H, S, F, I], "every history of analyses and changes of their inputs, every failing allocation and interrupt, every interleaving of analyses of different scans", "Tests analyse one scan once.",
 ["ebsd/indexing.py", "ebsd/refining.py", "ebsd/geometry.py", "ebsd/master_pattern.py", "ebsd/experiment_pats.py"], [("indexing", "ebsd/indexing.py:dictionary_index_orientations"), ("refinement", "ebsd/refining.py:orientation_grid_refinement"), ("pose of the detector", "ebsd/geometry.py:EBSDGeometry"), ("simulated patterns", "ebsd/master_pattern.py:MasterPattern.interpolate")], [("caches and shared inputs", "what an analysis leaves in shared objects and modules for the next one")], ["orientations, phases and scores of every scan", "master patterns, geometry and patterns after the call"])
