prop(
    "C01",
    "Pixel and metric image coordinates are exact inverses",
    "Pixel coordinates turn into metric ones about the sensor centre (x to the right, y upwards, each axis scaled by its own pixel pitch), converting back returns the point that was given, and the array versions agree with the scalar ones row by row. Inputs are left as they were.",
    ["inputs", "configurations"],
    "every image point (inside or outside the sensor), sensor size (odd or even) and pair of pixel pitches",
    "Tests convert three or four points of one or two sensors with even sizes and equal pitches; odd sizes, unequal pitches and array rows are not reached.",
    ["trafo.py"],
    [("fast_pixel_to_metric / fast_metric_to_pixel", "trafo.py"), ("arr_pixel_to_metric / arr_metric_to_pixel", "trafo.py")],
    "property-based testing: closed-form oracle and round trip",
    "Random sensors and points against the defining formula and round trip at 1e-12; assumes nothing else.",
    ["pixel_to_metric", "metric_to_pixel", "arr_pixel_to_metric", "arr_metric_to_pixel"],
)
prop(
    "C02",
    "Lens distortion follows Brown's formula and correction undoes it",
    "Distorting an ideal image point applies the radial, decentering, scale and shear terms about the sensor centre (the principal point offset is added first), and correcting a distorted point returns the ideal one, in either order, to the accuracy the tolerance asks for. A lens without distortion only shifts points by the principal point, and the sensor centre never moves.",
    ["inputs", "configurations"],
    "every image point on the sensor, principal point and set of added parameters of physical size, every stopping tolerance",
    "Tests try one point with a few coefficients; each of the seven coefficients enters the correction separately and a wrong power or sign in one shows only for calibrations that use it.",
    ["trafo.py"],
    [("distort_brown_affine", "trafo.py"), ("correct_brown_affine", "trafo.py"), ("flat_to_dist / dist_to_flat", "trafo.py")],
    "property-based testing: reference formula, round trip with an analytic error bound",
    "Compared with an independent Brown formula (exact to 1e-11 where the C library's ordering of x and y does not matter) and round trips within a derived second-order bound, under 2% of the distortion in nearly all non-trivial cases.",
    ["flat_to_dist", "dist_to_flat", "distort_brown_affine", "correct_brown_affine"],
)
prop(
    "C03",
    "A calibration is always what its setters made it, rotation matrix included",
    "After any history of setters, increments, copies and rejected calls, every parameter reads back as last set, the rotation matrix is the orthonormal product of the rotations about x, y and z by the held angles (or the matrix last set), and no other calibration object is affected. Arrays of the wrong shape are refused with ValueError and change nothing.",
    ["inputs", "histories"],
    "every angle triple and every sequence of operations on several calibration objects",
    "Tests set each parameter once on one object; staleness of the matrix, aliasing between objects or with the caller's arrays need histories.",
    ["calibration.py"],
    [("rotation_matrix", "calibration.py"), ("Calibration setters and copy", "calibration.py")],
    "stateful property-based testing against a plain model",
    "Operation histories on up to three objects are compared with a model after every step; the matrix with an independent product of elementary rotations.",
    ["Calibration"],
    [("ext_par / int_par / added_par / glass_par", "the calibration", "calibration.py")],
)
prop(
    "C14",
    "Parameter files, YAML and dictionaries give back every value in its own field",
    "Reading a legacy parameter file puts each line in the field it belongs to, whatever the white space or line endings; saving to YAML or a dictionary and loading gives an equal object of the same kind, with nested multimedia parameters; comparison functions say equal exactly when the compared fields are equal. Missing files are reported as errors and objects never share state.",
    ["inputs", "configurations"],
    "all values of all ten parameter classes, for 1 to 4 cameras, several layers, any file names and white space",
    "Tests read one example file per class, mostly with repeated values, and compare a few fields; swapped fields with equal values, several layers, names that YAML could misread and shared defaults are not reached.",
    ["parameters.py"],
    [("from_file of every class", "parameters.py"), ("Parameters.to_yaml / from_yaml / to_dict / from_dict", "parameters.py"), ("compare_*", "parameters.py")],
    "property-based testing: generated files, round trips, one-field perturbations",
    "Values are drawn per field, rendered by the check's own writer, and read through every entry point.",
    ["*.from_file", "read_*", "compare_*", "to_yaml", "from_yaml"],
)
prop(
    "C15",
    "Calibration files reproduce the calibration that was written",
    "Writing a calibration and reading it back through any entry point gives the same position, angles, rotation, interior orientation, glass and added parameters to the precision of the file, independent of white space, and writing what was read reproduces the files. Comparison is true exactly for calibrations equal in all parts, a copy is equal to and independent of its original, and unreadable or unwritable files are reported as errors.",
    ["inputs", "configurations"],
    "every calibration of physical size, with or without an added-parameter file, each reader and writer",
    "Tests round-trip one or two calibrations; field order, precision and separate comparisons of each part are not varied.",
    ["calibration.py"],
    [("write_ori / Calibration.from_file", "calibration.py"), ("compare_*", "calibration.py"), ("Calibration.copy", "calibration.py")],
    "property-based testing: round trip, idempotence, one-field perturbations",
    "Random calibrations through three writers and four readers, compared at the printed precision.",
    ["read_calibration", "write_calibration", "read_ori", "write_ori", "Calibration.write", "compare_calibration"],
)
prop(
    "C04",
    "Rays through the glass obey Snell's law from camera to water",
    "Back-projecting an image point gives the point where its ray leaves the glass and the unit direction in the water: the ray starts at the camera in the direction of the image point, bends at both glass surfaces by Snell's law in the plane of incidence, and ends on the far surface. Without refraction it is the straight line.",
    ["inputs", "configurations"],
    "every camera pose, glass orientation, distance, thickness and indices, every image point",
    "Tests trace a few rays of axis-aligned set-ups; tilted glass, swapped indices or a ray along the normal give plausible numbers that no fixed sample contradicts.",
    ["ray_tracing.py"],
    [("ray_tracing / fast_ray_tracing", "ray_tracing.py")],
    "property-based testing: independent vector model of refraction, metamorphic rigid motions",
    "Random geometry against a vector form of Snell's law at 1e-9, and invariance under rigid motions of the whole set-up.",
    ["ray_tracing"],
)
prop(
    "C05",
    "Projecting a space point through the media obeys refraction and Fermat",
    "The image of a space point is where the refracted light path from it meets the sensor: the path satisfies Snell's law at every interface of any number of layers, so that projecting and back-projecting agree, lens distortion is applied once, and array forms agree with scalar ones. With equal indices it is the central perspective.",
    ["inputs", "configurations"],
    "every camera, plane stack of one to three layers, space point and distortion",
    "Tests project a few points with one layer and air-like indices; index mix-ups between layers, tilted glass and convergence need the space of configurations.",
    ["multimed.py", "imgcoord.py"],
    [("multimed_r_nlay / fast_multimed_r_nlay", "multimed.py"), ("trans_cam_point / back_trans_point", "multimed.py"), ("flat_image_coord / img_coord", "imgcoord.py")],
    "property-based testing: reference refraction model, round trip, metamorphic relations",
    "Compared with a bisection on the optical path within a bound derived from the library's own stopping rule (0.001 mm).",
    ["flat_image_coord", "img_coord", "image_coordinates", "multimed_nlay", "trans_cam_point", "back_trans_point"],
)
prop(
    "C06",
    "The multimedia look-up table stands for the iteration over the whole volume",
    "The table built for a camera covers every point of the volume, its nodes hold the exact shift factor, reading between nodes is interpolation within the error of the grid, points outside are reported as such, and building it a second time for another volume gives the table of that volume.",
    ["inputs", "configurations", "histories"],
    "every camera, media and observed volume, and every order of (re)building the table",
    "Tests build one table for one volume and compare a few values; coverage of corners, negative limits, the last row or a second build are not reached.",
    ["multimed.py"],
    [("init_mmlut", "multimed.py"), ("get_mmf_from_mmlut", "multimed.py")],
    "property-based testing: comparison with the exact factor, coverage, rebuild history",
    "Nodes to 1e-9, interpolated values within bounds taken from the neighbouring nodes; the first cell on the glass normal is left out.",
    ["init_mmlut", "get_mmf_from_mmlut"],
    [("mmlut", "table of shift factors with origin, spacing and size", "calibration.py")],
)
prop(
    "C07",
    "An epipolar line holds the image of every point the ray can come from",
    "For any point of the volume seen by two cameras, its image in the second lies on the epipolar segment computed from its image in the first; the ends of the segment are the images of the ray's intersection with the volume's limits at that place, sloping limits included; epipolar curves run along it, and the single-camera form gives the point of the ray in the middle of the volume.",
    ["inputs", "configurations"],
    "every pair of cameras, refracting or not, volume limits and image point",
    "Tests compare one or two segments with stored numbers; sloping volumes, exchanged limits and tilted glass are not reached.",
    ["epi.py", "multimed.py"],
    [("epi_mm / epi_mm_2D", "epi.py"), ("epipolar_curve", "epi.py"), ("move_along_ray", "multimed.py")],
    "property-based testing: reference geometry and containment",
    "Reference rays through the check's own refraction model; containment holds within the derived curvature of the line.",
    ["epi_mm", "epi_mm_2D", "epipolar_curve", "move_along_ray"],
)
prop(
    "C08",
    "Triangulation finds the point the cameras see, and says how well",
    "From the images of a space point in any two or more cameras its position is recovered and the reported ray distance is zero to rounding; for disturbed images the position is the mean of the pairwise midpoints of the rays and the distance the mean of their separations. Cameras that do not see the point do not matter, batches give each row its own result, and dumbbell scores follow their definition.",
    ["inputs", "configurations"],
    "every rig of one to four cameras, batch size, visibility pattern and disturbance",
    "Tests triangulate one or two points seen by all cameras; rows of batches, unseen cameras and disturbed rays combine to many cases.",
    ["orientation.py"],
    [("point_position / skew_midpoint", "orientation.py"), ("multi_cam_point_positions / single_cam_point_positions", "orientation.py"), ("dumbbell_target_func / weighted_dumbbell_precision", "orientation.py")],
    "property-based testing: recovery, reference formula, metamorphic relations",
    "Compared with independent skew-line geometry at 1e-9 relative; recovery within the stopping rule of the projection.",
    ["point_position", "point_positions", "skew_midpoint", "dumbbell_target_func", "weighted_dumbbell_precision"],
)
prop(
    "C09",
    "The candidate search returns exactly the targets in the epipolar band",
    "Searching along an epipolar line returns every target within the band width of the line and its ends that is similar in size and grey value, each with its index, its distance from the line and the correlation value of the definition, and no other target; order and number of targets, and crowding of equal coordinates, do not matter.",
    ["inputs", "configurations"],
    "every sorted target table, line, tolerance and target size; every camera pair for the lines",
    "Tests search a handful of targets; binary search starts, borders of windows and early exits go wrong only for particular sizes and positions.",
    ["find_candidate.py", "epi.py", "correspondences.py"],
    [("find_candidate", "find_candidate.py"), ("quality_ratio", "find_candidate.py"), ("find_start_point", "find_candidate.py")],
    "property-based testing: brute-force reference over all targets",
    "Exhaustive comparison with a linear scan; decisions within 1e-9 of a threshold may go either way.",
    ["find_candidate", "match_pairs"],
)
prop(
    "C10",
    "Correspondences are the best disjoint cliques of the candidate graph",
    "The sets of corresponding targets are those that a greedy choice by falling quality makes among all quadruplets, then triplets, then pairs whose members are mutual candidates and pass the correlation limit: no target is used twice, quadruplets come before triplets before pairs, none that could still be taken is left out, and all_cam_flag restricts them as documented. Target numbers and reported positions belong to those targets.",
    ["inputs", "configurations", "histories"],
    "every set of targets in two to four cameras and every epipolar tolerance",
    "Tests match a few well-separated points; ambiguous candidates, phantoms and conflicts between cliques appear only in crowded scenes.",
    ["correspondences.py"],
    [("four/three_camera_matching, consistent_pair_matching", "correspondences.py"), ("take_best_candidates", "correspondences.py"), ("safely_allocate_target_usage_marks / py_correspondences", "correspondences.py")],
    "property-based testing: exhaustive clique enumeration as the reference model",
    "Full enumeration up to 30 points in up to four cameras; candidate lists come from the library (C09).",
    ["correspondences", "py_correspondences"],
    [("tusage", "which targets are taken already", "correspondences.py")],
)
prop(
    "C11",
    "Well-separated particles are matched completely and put at their place",
    "From the targets that particles produce in two to four cameras, with clutter among them, the pipeline of coordinate correction, sorting, correspondence and triangulation gives exactly one set for every particle that the cameras see, made of its own targets, at its position, and no other set.",
    ["inputs", "configurations"],
    "every rig behind glass, set of separated particles, visibility pattern and clutter",
    "Tests run the chain on one stored example and count results; index mix-ups between sorted and unsorted lists appear only for other orders.",
    ["correspondences.py", "tracking_frame_buf.py", "orientation.py", "epi.py"],
    [("py_correspondences", "correspondences.py"), ("match_coords", "tracking_frame_buf.py"), ("point_positions", "orientation.py")],
    "property-based testing: synthetic ground truth through the whole chain",
    "Images are made by the check's own refraction model; separation is decided before by that model.",
    ["py_correspondences", "match_coords", "point_positions"],
)
prop(
    "C12",
    "Target recognition reports exactly the bright regions it is asked for",
    "Every region that grows from a local grey-value maximum above the threshold, downhill within the discontinuity limit, and whose size, extents and sum are within the limits is reported exactly once, with its number of pixels, extents, grey-value sum and weighted centre, by recognition with one label per target; regions out of limits are not. Images are left as they were and sub-ranges see only their part.",
    ["inputs", "configurations"],
    "every 8-bit image, threshold, limit and sub-range",
    "Tests use a few drawn squares; growth order, plateaus, saturation, borders and two touching targets need many images.",
    ["segmentation.py"],
    [("targ_rec", "segmentation.py"), ("target_recognition", "segmentation.py")],
    "property-based testing: reference region growing and conservation relations",
    "Own implementation of the recognition rule on images up to 40x40 pixels, and synthetic blobs with known centre.",
    ["target_recognition", "targ_rec"],
)
prop(
    "C13",
    "Image filters do to every pixel what their definition says",
    "High-pass, low-pass, second-stage filters, masks and copies give at every pixel, borders included, the value of their definition with 8-bit clipping; sizes are kept and the input image is not changed.",
    ["inputs", "configurations"],
    "every 8-bit image from one pixel upwards, filter width and kernel",
    "Tests filter one or two small constant pictures; borders, wrap-around of 8-bit values and non-square images are not reached.",
    ["image_processing.py"],
    [("prepare_image / preprocess_image", "image_processing.py"), ("subtract_mask / copy_images", "image_processing.py")],
    "property-based testing: pixel-wise reference",
    "Direct evaluation of the definitions in integers; exact equality.",
    ["prepare_image", "preprocess_image", "subtract_mask", "copy_images"],
)
prop(
    "C16",
    "Target files give back the targets that were written",
    "Writing the targets of a camera and frame and reading them gives the same targets in the same order, with every field in its place, also for no targets and for every style of file name; the file has the documented layout, reading accepts any white space, and writing neither changes the targets nor touches files of other frames and cameras.",
    ["inputs", "histories"],
    "every list of targets, name style and frame number",
    "Tests round-trip two targets; empty lists, unused targets and long numbers in the columns are not reached.",
    ["tracking_frame_buf.py"],
    [("read_targets / write_targets", "tracking_frame_buf.py"), ("Target", "tracking_frame_buf.py")],
    "property-based testing: round trip, own writer and reader of the format",
    "Equality at the printed precision over generated lists and names.",
    ["read_targets", "write_targets"],
)
prop(
    "C17",
    "Frames written to disk read back unchanged: positions, links, targets",
    "Writing a frame (correspondences, links, priorities, targets of each camera) and reading it gives the same frame, with and without links; optional files may be left out, missing ones are reported, and nothing of an earlier content of the frame object or of other frames shows through.",
    ["inputs", "configurations", "histories"],
    "every frame of any size for one to four cameras, read into fresh and used frame objects",
    "Tests round-trip a frame of a few particles; stale contents, added particles and missing files need histories.",
    ["tracking_frame_buf.py"],
    [("read_path_frame / write_path_frame", "tracking_frame_buf.py"), ("Frame.read / Frame.write", "tracking_frame_buf.py")],
    "property-based testing: round trip, own writer and reader of the formats",
    "Equality at the printed precision; failures are injected by removing files.",
    ["Frame.read", "Frame.write", "read_path_frame", "write_path_frame"],
    [("Frame", "one frame: path_info, correspond, targets", "tracking_frame_buf.py")],
)
prop(
    "C18",
    "The ring of frames always shows the frame that was read at its place",
    "After any sequence of advancing, going back, reading, changing and writing, position i of the frame buffer shows the frame a plain rotating list would show, with the changes made to it, and files hold exactly what was written last; reading past the sequence or with missing files fails without disturbing other frames.",
    ["histories", "inputs"],
    "every history of buffer operations and buffer length",
    "Tests advance the ring once or twice; wrap-around, aliasing of frames and reading in the wrong slot need longer histories.",
    ["tracking_frame_buf.py"],
    [("FrameBufBase / FrameBuf", "tracking_frame_buf.py")],
    "stateful property-based testing against a plain list model",
    "Histories of up to 40 operations on buffers of 1 to 5 frames, compared after each step.",
    ["FrameBuf"],
    [("buf", "the ring (deque) of frames", "tracking_frame_buf.py")],
)
prop(
    "C19",
    "The tracker's searches return the nearest targets and agreed candidates",
    "Searching a window of the image returns the up to four nearest matched targets (or the nearest free one) inside the window and the image, nearest first, for any number of targets; candidates from several cameras are merged to particles with the number of cameras that saw each, most-seen first; the window is the bounding box of the images of the search volume.",
    ["inputs", "configurations"],
    "every sorted target list up to 9000 targets, window, and rig of cameras",
    "Tests search a handful of targets in one window; start points of the binary search, ties and image borders are not reached.",
    ["track.py"],
    [("candsearch_in_pix / candsearch_in_pix_rest", "track.py"), ("searchquader", "track.py"), ("sorted_candidates_in_volume / sort_candidates_by_freq", "track.py")],
    "property-based testing: linear-scan and counting reference",
    "Exhaustive comparison; ties are left open.",
    ["candsearch_in_pix", "candsearch_in_pix_rest", "searchquader", "sort_candidates_by_freq", "sorted_candidates_in_volume"],
)
prop(
    "C20",
    "Tracking keeps links mutual, within the limits, and the data intact",
    "Whatever is tracked, links are mutual and one-to-one between neighbouring frames, each linked step and added particle obeys the velocity, acceleration, angle and volume limits, link counts are those of the files, particles and targets of the input stay as they were (added particles come after them and take free targets only, once), and other files are not touched.",
    ["inputs", "histories", "configurations"],
    "every sequence of frames, search limits, camera rig, forward and backward",
    "Tests track a stored data set and compare counts; contested and broken links, added particles and the end of the sequence depend on the data.",
    ["track.py", "tracking_frame_buf.py", "tracking_run.py"],
    [("trackcorr_c_loop / trackcorr_c_finish", "track.py"), ("trackback_c", "track.py"), ("add_particle / assess_new_position", "track.py")],
    "property-based testing: invariants over the history of generated tracking runs",
    "Invariants are checked on the files of every frame after forward and backward runs.",
    ["trackcorr_c_loop", "trackback_c", "rt_is/ptv_is/targets files"],
    [("path_info", "links of each particle", "tracking_frame_buf.py"), ("targets.tnr", "particle each target belongs to", "tracking_frame_buf.py")],
)
prop(
    "C21",
    "Smooth, separated tracks are found completely, gaps filled by targets",
    "Particles that move smoothly within the limits and stay apart are linked from their first to their last frame and never to each other; a particle missing in a frame whose targets are there is added at its place when adding is on; tracking backwards restores the links missing in given tracks.",
    ["inputs", "histories", "configurations"],
    "every rig, number, speed, direction and extent of tracks, particle order and gap pattern",
    "Tests track one or two stored trajectories; starts in the middle, permuted particles and gaps combine in many ways.",
    ["track.py", "tracking_frame_buf.py"],
    [("trackcorr_c_loop", "track.py"), ("trackback_c", "track.py"), ("search_volume_center_moving / predict", "track.py")],
    "property-based testing: synthetic ground-truth trajectories",
    "Up to four tracks in up to seven frames; separated by six search radii so that the right answer is unique.",
    ["trackcorr_c_loop", "trackback_c"],
)
prop(
    "C22",
    "Orientation finds the camera that took the points, or leaves it alone",
    "From images of known points a disturbed camera is brought back to the pose (and to the freed lens, glass and distortion parameters) that made them; parameters that are not freed keep their values, the residuals are those of the points used with their numbers, the standard deviations are those of the adjusted parameters and zero for fixed ones, with measurement errors and a wrong camera constant or principal point set free the result is the least squares optimum including their weight-one priors at the initial values, unused points have no influence, and a failed adjustment leaves the calibration as it was.",
    ["inputs", "configurations", "fault_sequences"],
    "every camera, point set, disturbance and subset of freed parameters",
    "Tests recover one camera with one or two flags; each of the sixteen parameters enters the equations apart, and the use of points by number only shows when some are left out.",
    ["orientation.py"],
    [("orient / full_calibration", "orientation.py"), ("raw_orient / external_calibration", "orientation.py"), ("num_deriv_exterior", "orientation.py")],
    "property-based testing: recovery of known cameras, invariance, fault injection",
    "Starts within 5% of the distance and 0.05 rad; distortion coefficients start near their values.",
    ["external_calibration", "full_calibration", "orient"],
)
prop(
    "C23",
    "Calibration points get the detection nearest to their projection",
    "Each reference point is given the detection nearest to its projection within the search radius, numbered by its row, or is marked missing; detections keep their values; the chain from matching to full calibration recovers the camera, and calibration blocks and manual-orientation files read as written whatever their white space.",
    ["inputs", "configurations"],
    "every camera, reference grid, set of detections with doubles and clutter, search radius and file layout",
    "Tests match one stored image; nearest of two, missing points and permuted detections are not reached.",
    ["sortgrid.py", "orientation.py"],
    [("sortgrid", "sortgrid.py"), ("match_detection_to_ref", "orientation.py"), ("read_calblock / read_man_ori_fix", "sortgrid.py")],
    "property-based testing: nearest-neighbour reference, recovery, file round trip",
    "Linear search for the nearest detection on projected points; decisions within 1e-6 px are left open.",
    ["sortgrid", "match_detection_to_ref", "read_calblock", "read_man_ori_fix", "nearest_neighbour_pix"],
)
prop(
    "C24",
    "The observed volume covers what the cameras see; a run holds its files",
    "The volume computed from the cameras is the bounding box of the corner rays of all sensors at the upper and lower limits of depth, never smaller than the box given; a tracking run built from parameter files or objects holds the values of exactly those files, with the search radius and image limits derived from them.",
    ["inputs", "configurations"],
    "every rig of one to four cameras, starting box and parameter set",
    "Tests compare one volume with stored numbers and one run's fields that mostly coincide with defaults.",
    ["multimed.py", "tracking_run.py"],
    [("volumedimension", "multimed.py"), ("TrackingRun / tr_new", "tracking_run.py")],
    "property-based testing: reference ray geometry, field-by-field comparison",
    "Corner rays through the check's own refraction model.",
    ["volumedimension", "TrackingRun", "tr_new"],
)
prop(
    "C25",
    "Matched coordinates stay with their target through sorting and look-up",
    "Coordinates prepared for matching are the undistorted metric positions of the targets, one for each, sorted by x and still carrying the number of their target; looking up by number returns the coordinates of exactly those targets (or the mark for missing ones), and sorting helpers return sorted permutations of what they are given.",
    ["inputs", "configurations"],
    "every list of targets in any order, calibration and list of numbers",
    "Tests sort three targets; equal keys, lists of odd length and numbers that are not positions are not reached.",
    ["tracking_frame_buf.py", "correspondences.py"],
    [("match_coords", "tracking_frame_buf.py"), ("get_by_pnrs", "tracking_frame_buf.py"), ("quicksort_n_tupel / sort_target_y", "tracking_frame_buf.py")],
    "property-based testing: permutation and per-target reference",
    "Lists of up to 40 targets; every target's coordinate is computed apart from the list.",
    ["match_coords", "get_by_pnrs", "sort_target_y", "sort_coord2d_x", "quicksort_n_tupel", "single_cam_point_positions"],
)
prop(
    "C26",
    "Vector, angle and bounds helpers follow their geometric definition",
    "Vector helpers give sums, products, norms and distances of their definition and never change their arguments; the angle between two displacements is the true angle in gon from 0 to 200 and the acceleration the difference of the displacements, for parallel, opposite and zero vectors too; prediction extrapolates linearly, and the bounds test is strict on every axis.",
    ["inputs"],
    "every vector, zero, parallel, opposite and nearly so, and every bound",
    "Tests take a few vectors with whole numbers; rounding near parallel vectors and single axes need generated ones.",
    ["vec_utils.py", "track.py"],
    [("vec_*", "vec_utils.py"), ("angle_acc", "track.py"), ("predict / pos3d_in_bounds", "track.py")],
    "property-based testing: definitions in extended form, metamorphic relations",
    "Relative accuracy of 1e-9, angles to 1e-4 gon.",
    ["vec_*", "angle_acc", "predict", "pos3d_in_bounds"],
)
prop(
    "C27",
    "A result depends on the arguments alone, and the arguments stay unchanged",
    "Calling any function of the library again with the same or equal arguments gives the identical result, whatever was called in between on whichever data and whatever other threads call at the same time on objects of their own; it leaves its arguments as they were unless changing them is its purpose, and what it returned does not change with later calls; tracking the same files again gives the same files.",
    ["histories", "schedules", "inputs", "configurations"],
    "every history of calls of 39 functions on two set-ups, the same calls in several threads, and tracking runs interleaved with others",
    "Tests call each function on fresh data once; caches, shared defaults and buffers, in-place changes and left-over state show only over histories and schedules.",
    ["multimed.py", "orientation.py", "trafo.py", "correspondences.py", "track.py", "tracking_frame_buf.py", "segmentation.py"],
    [("numba-compiled kernels", "trafo.py"), ("default arguments and module state", "track.py")],
    "property-based testing: histories of calls with bit-wise repetition, and differential runs in 2 to 4 threads",
    "Bit-identical results, on histories of up to 14 calls; thread schedules are those the interpreter takes with a very short switch interval.",
    ["all public functions listed in checks/c27.py"],
)
prop(
    "C28",
    "Every link is the one the tracking criteria choose",
    "Each link made in a forward step is the continuation the criteria choose: among the candidates seen in the search window it obeys the limits of velocity, acceleration and angle and has the least merit (or is the nearest when no history is known), and where two particles claim the same continuation the one with the better merit gets it; where no candidate passes there is no link.",
    ["inputs", "histories", "configurations"],
    "every sequence of frames, search limits and camera rig",
    "Tests compare counts of links on stored data; the choice among several continuations and between claims is not observed.",
    ["track.py"],
    [("trackcorr_c_loop", "track.py"), ("register_link_candidate", "track.py"), ("sort", "track.py")],
    "property-based testing: a plain model of the criteria applied to every step",
    "Decisions closer than 1e-7 to a limit and ties are left open; projection and triangulation come from the library.",
    ["ptv_is files", "trackcorr_c_loop"],
)
prop(
    "C29",
    "Cut files are refused, failed writes reported, interrupted runs repeatable",
    "A parameter, calibration, targets or path file that ends before its last value is refused by its reader (an exception, or no data), never completed with arbitrary or default values; a write that fails - a full device, a file that cannot be opened - is reported as a failure, by tracking too, and does not destroy what the frame was read from; a forward tracking run (adding no particles) that is interrupted by such a fault leaves the frames it did not reach as they were and, once the fault is removed, is repeated with the results of an undisturbed run.",
    ["crash_points", "fault_sequences", "inputs"],
    "every file kind, every place where it can be cut, every output that can fail, every frame at which a run can stop",
    "Tests read and write complete files on a healthy disk; they never cut a file at a drawn place or fail a drawn write.",
    ["tracking_frame_buf.py", "parameters.py", "calibration.py", "track.py", "orientation.py", "sortgrid.py", "image_processing.py"],
    [("read_path_frame", "tracking_frame_buf.py"), ("write_path_frame", "tracking_frame_buf.py"), ("read_targets", "tracking_frame_buf.py"), ("Calibration.from_file", "calibration.py"), ("trackcorr_c_loop", "track.py")],
    "property-based testing: injected faults (cut files, full device, blocked names) at drawn places, differential repetition of interrupted runs",
    "One fault per case; cuts that leave a complete file are left out; a full device in the middle of rt_is or a targets file itself may leave that file incomplete.",
    ["all from_file/read_* readers", "Frame.read", "Frame.write", "write_targets", "write_path_frame", "to_yaml", "trackcorr_c_loop"],
)
prop(
    "C30",
    "From images to calibrated cameras and complete trajectories",
    "The parts fit together: images of separated, smoothly moving particles, passed through recognition, sorting, matching, location, writing, and tracking, come out as files that hold every particle of every frame once, near its true place, with the targets that are its images, and linked to itself and nothing else; images of a known calibration target, passed through recognition, assignment and orientation from a rough start, give cameras with which other points are measured at their true place.",
    ["inputs", "histories", "configurations"],
    "every rig of cameras, media, distortion, set of separated particles, their brightness, size and motion",
    "Tests run one stage at a time on stored results of the stage before; nothing ties numbers, orders and units of one stage to those of the next on other data.",
    ["segmentation.py", "correspondences.py", "orientation.py", "tracking_frame_buf.py", "track.py", "sortgrid.py"],
    [("target_recognition", "segmentation.py"), ("py_correspondences", "correspondences.py"), ("get_by_pnrs", "tracking_frame_buf.py"), ("point_positions", "orientation.py"), ("match_detection_to_ref", "orientation.py"), ("trackcorr_c_loop", "track.py")],
    "property-based testing: rendered scenes through the whole chain, compared with the truth they were rendered from",
    "Small images (180 to 260 pixels), up to eight particles, six frames; particles whose images touch or whose epipolar bands are crossed are left out.",
    ["target_recognition", "py_correspondences", "point_positions", "Frame.write", "full_calibration", "rt_is and ptv_is files"],
)
