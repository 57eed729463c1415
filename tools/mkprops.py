#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays easy to edit)."""
import json, os
L='liboptv/src/'; B='py_bind/optv/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('P01','Pixel and metric image coordinates convert consistently both ways',
 'For every image size, pixel size and interlacing mode, the metric position of a pixel is its offset from the image centre times the pixel size, x to the right and y upwards, with odd-line and even-line fields first mapped to full-frame rows (2y+1 and 2y). Converting pixel to metric and back, or metric to pixel and back, returns the starting point up to rounding, also when input and output share storage.',
 ['inputs','configurations'],'all image and pixel sizes, the three field modes, all points inside, on and outside the image',
 'The tests convert a few fixed points in two sensor set-ups; errors tied to odd image sizes, non-square pixels or a field mode pass.',
 [L+'trafo.c',B+'transforms.pyx'],[('pixel_to_metric / metric_to_pixel',L+'trafo.c'),('convert_arr_pixel_to_metric, convert_arr_metric_to_pixel',B+'transforms.pyx')])
p('P02','Lens distortion follows its model and correction inverts it',
 'For every camera with moderate lens distortion, the distorted position of an ideal image point is given by the Brown radial and decentering terms followed by scale and shear, applied relative to the sensor centre (sensor shift included). Correcting a distorted position iterates until two successive corrections differ by less than the requested tolerance (relative to the radius) and so recovers the ideal position to within a small multiple of it, everywhere on the sensor including exactly at its centre; the single-step correction is within the second-order error of the exact one.',
 ['inputs','configurations'],'all distortion parameter sets for which the distortion displacement stays moderate and the map is invertible on the sensor, all sensor shifts, all points',
 'Tests use one or two parameter sets and a handful of points, none at the sensor centre and none combining shear with the other terms.',
 [L+'trafo.c',B+'transforms.pyx'],[('distort_brown_affin, correct_brown_affine_exact, correct_brown_affin',L+'trafo.c'),('flat_to_dist, dist_to_flat',L+'trafo.c')])
p('P03','A 3D point is imaged where pinhole optics with refraction puts it',
 'For every camera pose and plane-parallel stack of media between camera and object, the image of a 3D point is the pinhole projection of the light path from the point to the camera that obeys Snell\'s law at every interface; with a single medium this is the collinearity equation, and the lens distortion is applied afterwards. (Rays up to about 50 degrees off the glass normal; for a steeper ray the search for the refraction point may give up, and the point is then projected without refraction.) It depends on the scene only through the geometry: rotating and translating camera, glass and point together leaves the image unchanged.',
 ['inputs','configurations'],'all poses, glass normals and distances, refraction indices, layer thicknesses, and points in the observed medium in front of the camera',
 'Tests check a camera looking straight along an axis with two or three points; oblique glass, several layers and points near the optical axis are not reached.',
 [L+'imgcoord.c',L+'multimed.c',B+'imgcoord.pyx'],[('flat_image_coord, img_coord',L+'imgcoord.c'),('trans_Cam_Point, back_trans_Point, multimed_r_nlay',L+'multimed.c'),('image_coordinates, flat_image_coordinates',B+'imgcoord.pyx')])
p('P04','Back-traced rays obey refraction and meet the points that were imaged',
 'For every camera, glass plane and image position, the returned ray starts on the far face of the glass, has a unit direction, stays in the plane of incidence and satisfies Snell\'s law through air, glass and water. The ray traced from the image of any 3D point passes through that point.',
 ['inputs','configurations'],'all camera poses, glass orientations, single-glass media and image positions whose rays hit the glass from the camera side',
 'Tests compare one ray for a perpendicular camera; refraction errors that vanish at normal incidence or for one index ratio stay invisible.',
 [L+'ray_tracing.c',L+'multimed.c'],[('ray_tracing',L+'ray_tracing.c'),('move_along_ray',L+'multimed.c')])
p('P05','The refraction lookup table agrees with direct computation',
 'After the lookup table of a camera is prepared for a measurement volume, projecting any point gives the direct result to within the table\'s interpolation error inside the table and the direct result itself outside it. The observed volume reported for a set of cameras is exactly bounded by the image-corner rays at the near and far depth limits (extending the given bounds).',
 ['inputs','configurations'],'all cameras, media, measurement volumes and points, including points on and beyond every edge of the table',
 'Tests look up one interior point of one table; table edges and points outside are never probed.',
 [L+'multimed.c'],[('init_mmlut, get_mmf_from_mmlut',L+'multimed.c'),('volumedimension',L+'multimed.c')])
p('P06','Triangulation recovers 3D points and reports how well rays meet',
 'For every rig of two or more cameras and any visible 3D point, triangulating its exact image positions returns the point with near-zero ray-convergence error, whichever subset of at least two cameras saw it. For inexact image positions the result is the mean, over the seeing camera pairs, of the midpoints of their closest approach, with the mean closest distance reported; it does not depend on the order of the cameras.',
 ['inputs','configurations'],'all rigs, media, visibility patterns and image positions with non-parallel rays',
 'Tests triangulate a few synthetic points with one four-camera rig; unseen cameras, noisy rays and camera order are barely exercised.',
 [L+'orientation.c',B+'orientation.pyx'],[('point_position, skew_midpoint, weighted_dumbbell_precision',L+'orientation.c'),('point_positions, multi_cam_point_positions, single_cam_point_positions, dumbbell_target_func',B+'orientation.pyx')])
p('P07','Epipolar segments contain the image of every admissible point',
 'For every pair of cameras and any 3D point inside the measurement depth range, the image of the point in the second camera lies on the epipolar segment computed from its image in the first, up to the curvature refraction introduces. The segment\'s ends are the images of the ray\'s points at the near and far depth limits, which for a tilted volume are interpolated at the X at which the ray leaves the glass (held constant beyond the ends of the volume), and the same-image estimate is the mid-depth point of the ray.',
 ['inputs','configurations'],'all camera pairs, media, volumes with X-dependent depth limits, and points',
 'Tests use one camera pair looking straight down with equal depth limits on both sides.',
 [L+'epi.c',B+'epipolar.pyx'],[('epi_mm, epi_mm_2D',L+'epi.c'),('epipolar_curve',B+'epipolar.pyx')])
p('P08','Epipolar candidate search returns exactly the qualifying targets',
 'For every list of targets sorted along x and every epipolar segment, the search returns exactly the targets that lie within the tolerance band of the segment and whose size and brightness ratios to the reference target meet the limits, each with its distance to the line and its similarity score; other targets are never returned. A segment that does not meet the sensor reports an out-of-sensor condition.',
 ['inputs','configurations'],'all target lists up to the candidate capacity, all segments, tolerances and similarity limits',
 'Tests run one list of a few targets; boundary targets, vertical or steep segments, and long lists are not reached.',
 [L+'epi.c'],[('find_candidate',L+'epi.c')])
p('P09','Stereo correspondences are valid, exclusive, complete and well labelled',
 'For every scene, the returned particle sets contain one target per listed camera, every target belongs to at most one set, every pair of targets in a set satisfies the mutual epipolar and similarity criteria, and, within the candidate capacity, no admissible larger set of still unused targets is passed over in favour of a smaller one (a pair counts as admissible only when it is the only candidate for its targets; smaller sets are not sought when only matches in all cameras are asked for). The reported counts per set size match the sets returned, sets come ordered by size, and every matched target carries the number of its set while unmatched ones carry none.',
 ['inputs','configurations'],'all numbers of cameras from two to four, target lists (including empty ones), calibrations and matching limits',
 'Tests match one synthetic grid with all cameras seeing all points; ambiguity, missing detections and fewer than four cameras with partial visibility are not reached.',
 [L+'correspondences.c',B+'correspondences.pyx'],[('correspondences, match_pairs, four_camera_matching, three_camera_matching, consistent_pair_matching, take_best_candidates',L+'correspondences.c'),('correspondences, MatchedCoords',B+'correspondences.pyx')])
p('P10','Target recognition finds exactly the blobs in the image',
 'For every image and recognition settings, the detected targets are exactly the bright blobs grown from local maxima above the threshold under the allowed discontinuity that meet the size and brightness limits, within the searched window; each is reported with its pixel count, extents, grey-value sum and grey-weighted centroid, and no pixel is counted in two targets. An isolated bright spot is always found once, wherever it is in the window, at its centroid. The older peak-fitting detector likewise finds every isolated spot once at its centroid: a target starts at every local maximum above the threshold, the areas of two maxima are united unless a clear valley separates them, no pixel is counted twice, each target has the sums, extents and centroid of its pixels, and any number of maxima and pixels is handled without damage.',
 ['inputs','configurations'],'all grey images, windows and recognition parameters within the documented buffer limits',
 'Tests use a few tiny hand-made images with one or two spots.',
 [L+'segmentation.c',B+'segmentation.pyx'],[('targ_rec',L+'segmentation.c'),('peak_fit',L+'segmentation.c'),('target_recognition',B+'segmentation.pyx')])
p('P11','Image filters compute exactly what they are defined to compute',
 'For every image, the 3x3 filter, the low-pass, the box blur (whose window shrinks symmetrically at the borders), image subtraction, masking, field splitting and copying produce in every pixel they define the value of their definition, and high-pass preprocessing equals the image minus its blurred version clipped at zero, followed by the optional second filter. Inputs that are not declared outputs are left unchanged, and nothing is written outside the image.',
 ['inputs','configurations'],'all images, sizes, filter spans, filter kernels and preprocessing modes',
 'Tests use 3x3 to 5x5 images with one spot; spans, image sizes and pixel ranges (saturation) beyond these are not reached.',
 [L+'image_processing.c',B+'image_processing.pyx'],[('filter_3, lowpass_3, fast_box_blur, split, subtract_img, subtract_mask, copy_images, prepare_image',L+'image_processing.c'),('preprocess_image',B+'image_processing.pyx')])
p('P12','Target files give back the targets that were written',
 'Any list of targets written for a camera and frame and read again yields the same targets in the same order, to the precision of the file format, for every count including zero and for every frame number the naming scheme supports. Reading a missing, truncated or malformed target file, or writing to an impossible location, reports failure and never passes off invented targets as data.',
 ['inputs','histories','fault_sequences'],'all target lists, field values, base names, frame numbers; all truncations and corruptions of a target file',
 'Tests read one shipped file and write two targets; truncation, odd values and frame numbering are not explored.',
 [L+'tracking_frame_buf.c',B+'tracking_framebuf.pyx'],[('read_targets, write_targets',L+'tracking_frame_buf.c'),('read_targets, TargetArray.write',B+'tracking_framebuf.pyx')])
p('P13','Trajectory frame files give back the frame that was written',
 'Writing the particles of a frame (positions, stereo correspondences, links to the previous and next frame, link priority; frames read without a priority file get priority 4) and reading them back yields the same frame to the precision of the format, for every number of particles including none and up to the buffer capacity. Missing, truncated or malformed frame files are reported as failures and never yield a partly invented frame.',
 ['inputs','histories','fault_sequences'],'all frames, with and without link and priority files; all truncations of any of the files',
 'Tests round-trip two particles; large indices, empty frames and truncated files are not reached.',
 [L+'tracking_frame_buf.c',B+'tracking_framebuf.pyx'],[('read_path_frame, write_path_frame, read_frame, write_frame',L+'tracking_frame_buf.c'),('Frame.read',B+'tracking_framebuf.pyx')])
p('P14','The frame buffer behaves as a ring of frames over the sequence',
 'After any sequence of advancing, stepping back, reading a frame at the end and writing the frame at the start, position i of the buffer holds the frame that a simple circular list would hold, with all its content, and writing then reading any frame returns that content. Links, priorities and tracking state not read from disk are reset to their no-link defaults, and no operation disturbs other frames in the buffer.',
 ['histories','configurations'],'all operation sequences, buffer lengths, camera and particle counts',
 'Tests perform one fixed sequence of four reads and steps.',
 [L+'tracking_frame_buf.c'],[('fb_init, fb_next, fb_prev, fb_read_frame_at_end, fb_write_frame_from_start',L+'tracking_frame_buf.c'),('register_link_candidate, reset_links',L+'tracking_frame_buf.c')],state=[('ring vector','double-length vector of frame pointers',L+'tracking_frame_buf.c')])
p('P15','Calibrations survive saving and loading, with proper rotations',
 'Any calibration saved and loaded again is the same camera to the precision of the file format, including the distortion parameters; when no distortion file exists the stated fallback or the neutral distortion is used, and a missing or malformed orientation file is reported as failure. The rotation matrix derived from any three angles is orthonormal with determinant one and equals the rotation about x, y and z composed in the documented order.',
 ['inputs','fault_sequences'],'all calibrations in the representable range, all angle triples, all missing or truncated files',
 'Tests round-trip one calibration and check one angle triple.',
 [L+'calibration.c',B+'calibration.pyx'],[('write_ori, read_ori, read_calibration, write_calibration, rotation_matrix',L+'calibration.c'),('Calibration.from_file, Calibration.write',B+'calibration.pyx')])
p('P16','Parameter files are read exactly or rejected',
 'For every well-formed sequence, tracking, volume, control, target-recognition, orientation-flag, grid-sorting, calibration-block and manual-orientation file, reading returns exactly the values in the file in their documented places, and writing then reading recognition parameters returns the same values. A file that is missing, truncated or malformed in a needed value (a number that is absent or not a number; file names up to 239 characters without blanks; a calibration block that ends after a whole point is just a shorter block) yields a failure result, never a parameter set with unset values, and a failed read leaves no open file behind.',
 ['inputs','configurations','fault_sequences'],'all values, camera counts, path names, and all truncations of each file',
 'Tests read one shipped file per kind; no test reads a truncated file.',
 [L+'parameters.c',L+'orientation.c',L+'sortgrid.c',B+'parameters.pyx'],[('read_sequence_par, read_track_par, read_volume_par, read_control_par, read_target_par, write_target_par',L+'parameters.c'),('read_orient_par, read_man_ori_fix',L+'orientation.c'),('read_sortgrid_par, read_calblock',L+'sortgrid.c')])
p('P17','Equality comparisons notice every difference and nothing else',
 'Comparing two parameter sets, calibrations, targets, correspondences or trajectory records reports equality exactly when every field (and every camera\'s name) has the same value (of the media, the first glass layer is compared, as documented); changing any one field makes them unequal, and the comparison is reflexive and symmetric.',
 ['inputs'],'all pairs of records, in particular pairs differing in exactly one field',
 'Tests compare a copy and one or two changed fields per type.',
 [L+'parameters.c',L+'calibration.c',L+'tracking_frame_buf.c',B+'parameters.pyx'],[('compare_sequence_par, compare_track_par, compare_volume_par, compare_control_par, compare_mm_np, compare_target_par',L+'parameters.c'),('compare_exterior, compare_interior, compare_glass, compare_addpar, compare_calib',L+'calibration.c'),('compare_targets, compare_corres, compare_path_info',L+'tracking_frame_buf.c')])
p('P18','Camera calibration recovers the true camera and respects its flags',
 'Given known 3D points and their exact image positions, calibration starting from a moderately perturbed camera returns the true pose and, when released, the true interior, distortion and affine parameters (or an equivalent camera), with vanishing residuals; with inexact positions the result is the least-squares optimum, in which released interior and distortion parameters are weighted with their initial guess. Parameters not released keep their values; when calibration fails it reports failure and leaves the camera unchanged.',
 ['inputs','configurations'],'all cameras, glass configurations, point clouds, perturbations and release-flag combinations that the point set determines',
 'Tests calibrate one camera with one dot grid and a few flag sets.',
 [L+'orientation.c',B+'orientation.pyx'],[('orient, num_deriv_exterior',L+'orientation.c'),('full_calibration',B+'orientation.pyx')])
p('P19','Rough camera orientation from a few points finds the pose',
 'Given four or more hand-picked, well-spread points with exact image positions and a rough starting pose, rough orientation converges to the true pose and reports success; when it cannot converge it reports failure. Interior, glass and distortion parameters are never changed.',
 ['inputs','configurations'],'all cameras, numbers of points, spreads and moderate starting errors',
 'Tests run one camera with four points.',
 [L+'orientation.c',B+'orientation.pyx'],[('raw_orient',L+'orientation.c'),('external_calibration',B+'orientation.pyx')])
p('P20','Calibration points are paired with their nearest detections',
 'For every camera, calibration body and set of detections, each calibration point that projects onto the sensor is paired with the detection nearest to its projection within the search window (a square, its half width the search radius), independently of the other points, and marked unpaired when there is none; every returned entry carries the detection\'s own data and the calibration point\'s number. The nearest-detection search itself agrees with exhaustive search.',
 ['inputs','configurations'],'all cameras, point clouds, detection lists, search radii',
 'Tests pair a handful of points with a single radius.',
 [L+'sortgrid.c',B+'orientation.pyx'],[('sortgrid, nearest_neighbour_pix',L+'sortgrid.c'),('match_detection_to_ref',B+'orientation.pyx')])
p('P21','Matrix, least-squares and vector helpers are algebraically right',
 'For every size and padded storage layout, the normal-equation products, matrix product and in-place inverse equal their mathematical definitions up to rounding and touch only the part of storage they declare; so do cross and dot products, norms, scaling, unit vectors and comparisons of 3D vectors; element-wise vector operations are right also when output and input share storage.',
 ['inputs'],'all sizes, paddings and well-conditioned values',
 'Tests use one or two small fixed matrices, mostly without padding.',
 [L+'lsqadj.c',L+'vec_utils.c'],[('ata, atl, matinv, matmul, norm_cross',L+'lsqadj.c'),('vec_* helpers, unit_vector',L+'vec_utils.c')])
p('P22','Tracking produces consistent trajectories',
 'After every step of forward or backward tracking, in memory and in the frame files written, links are mutual and exclusive: if a particle names a successor, that particle names it as predecessor, no two particles share a successor or predecessor, and all links point to existing particles of the adjacent frames. Tracking never alters particle positions, correspondences or targets it was given, apart from the particles it adds at the end of a frame and the labels of the targets those use.',
 ['histories','inputs','configurations'],'all sequences of frames, particle densities (including empty frames), tracking limits, sequence lengths, with and without particle addition',
 'Tests track one or two particles over a few frames and look at link counts.',
 [L+'track.c',L+'tracking_run.c',L+'tracking_frame_buf.c',B+'tracker.pyx'],[('trackcorr_c_loop, trackcorr_c_finish, trackback_c',L+'track.c'),('Tracker.full_forward, step_forward, full_backward',B+'tracker.pyx')])
p('P23','Tracking follows well-separated particles and respects its limits',
 'For particles moving smoothly within the velocity, angle and acceleration limits and well separated compared to their displacement, forward tracking links every particle to its true successor through the whole sequence, and links follow the documented choice: a continuation is sought in the image windows that the velocity limits span around the predicted position, is admissible within the acceleration and angle limits (or below a tenth of the acceleration limit), is rated by displacement, acceleration and angle relative to their limits divided by the number of cameras supporting it, and each particle claims its best rated continuation, conflicting claims going to the better rating. Backward tracking completes trajectories from their start, within the same limits. Particles missing from the 3D data but detected in the images (within 3 pixels of the prediction, in two or more cameras) are re-created at their true position when particle addition is enabled, never when it is not.',
 ['histories','inputs','configurations'],'all smooth motions, rigs, media, sequence lengths, particle counts and tracking limits',
 'Tests follow one shipped particle set with one setting.',
 [L+'track.c',L+'tracking_run.c',B+'tracker.pyx'],[('trackcorr_c_loop, trackback_c, assess_new_position, add_particle',L+'track.c'),('tr_new',L+'tracking_run.c')])
p('P24','Search windows, neighbour search and motion criteria are exact',
 'The image search window around a predicted position is the bounding box of the projected velocity-limit box clipped to the sensor; the neighbour search in it returns the nearest targets (matched or unmatched as asked) in increasing distance, and combining cameras ranks candidates by the number of cameras that see them, dropping those seen once (if none is seen twice, the first one is kept). Motion angle (zero for parallel motions and for particles at rest), acceleration, prediction, limit tests and the sorting of link candidates equal their definitions.',
 ['inputs','configurations'],'all target lists sorted along y, windows, rigs, velocity limits, candidate tables and position triples',
 'Tests use lists of a handful of targets and one window.',
 [L+'track.c'],[('searchquader, candsearch_in_pix, candsearch_in_pix_rest, sort_candidates_by_freq, angle_acc, predict, search_volume_center_moving, pos3d_in_bounds, sort',L+'track.c')])
p('P25','The Python interface returns what the C library computes',
 'For every valid input, each Python-level operation (coordinate transforms, projection, triangulation, epipolar lines, correspondences, recognition, filtering, calibration, target lists, parameter objects, tracking) returns the same values as the corresponding library operation, with documented shapes and order, and leaves its input arrays unchanged. Every value set on a parameter, calibration or target object is read back equal.',
 ['inputs','configurations','histories'],'all array lengths (including none), camera counts, parameter objects and sequences of attribute accesses',
 'Binding tests call each function once or twice on fixed data.',
 ['py_bind/optv'],[('all bindings','py_bind/optv/*.pyx')])
p('P26','The Python interface is memory-safe and fails with exceptions',
 'No call of the Python interface with arguments of the documented types, in any order and with any array sizes or missing files, reads or writes memory it does not own or crashes the interpreter; impossible requests raise an exception or return a documented failure value, and no result holds unset memory. Objects stay valid as long as Python references to them or to things obtained from them exist.',
 ['inputs','histories','fault_sequences'],'all call sequences, array sizes including zero, camera counts one to four, missing or malformed files, object lifetimes',
 'Binding tests run without memory checking and only with well-formed inputs.',
 ['py_bind/optv'],[('all bindings','py_bind/optv/*.pyx')])
p('P27','No input file can corrupt memory',
 'Whatever the bytes of a parameter, calibration, target, frame or kernel file, reading it either returns data or reports failure: it never crashes, hangs, overruns a buffer or reads unset memory, and a read of a target or frame file never stores more entries than the file holds.',
 ['inputs','fault_sequences'],'all byte strings as file content, for every file kind (target and frame files: up to the capacity of the caller\'s buffer)',
 'The tests only read well-formed files.',
 [L+'parameters.c',L+'calibration.c',L+'orientation.c',L+'sortgrid.c',L+'tracking_frame_buf.c',L+'image_processing.c'],[('all file readers',L)])
p('P28','The whole measurement chain reconstructs a synthetic scene',
 'For synthetic particles rendered as spots into the images of a calibrated rig, preprocessing, recognition, stereo matching and triangulation together return every sufficiently separated particle at its true 3D position within the localisation error, and no particle that is not there. When smoothly moving, well separated particles go through the chain frame by frame and the results are stored and tracked, the links that are written follow the particles.',
 ['inputs','configurations'],'all rigs, media, particle clouds with sufficient image separation, spot sizes and backgrounds',
 'No test runs the chain; each stage is only tested on fixtures of its own.',
 ['liboptv/src'],[('prepare_image, targ_rec/peak_fit, pixel_to_metric, dist_to_flat, correspondences, point_position, write_targets, write_path_frame, trackcorr_c_loop','liboptv/src/*.c')])
p('P29','Every operation gives back the memory and the files it took',
 'An operation of the library that is repeated any number of times on the same data keeps no memory and no open file beyond what it documents to return, whether it succeeds or fails: readers of files with any content, writers, frames and frame buffers, complete tracking runs, stereo matching, reconstruction, calibration that converges or does not, and image processing. What an operation returns can be released completely with the release function that belongs to it.',
 ['histories','fault_sequences'],'all operations on all inputs, successful and failing, repeated any number of times',
 'Tests call each operation a few times in a short process and never look at what is left allocated; a leak shows only in long sequences or on failing inputs.',
 [L+'tracking_frame_buf.c',L+'tracking_run.c',L+'track.c',L+'correspondences.c',L+'orientation.c',L+'parameters.c',L+'calibration.c',L+'sortgrid.c',L+'segmentation.c',L+'image_processing.c',L+'multimed.c'],
 [('fb_free, free_frame, tr_free, free_sequence_par, free_control_par','liboptv/src'),('deallocate_target_lists, deallocate_adjacency_lists',L+'correspondences.c'),('readers and their failure paths','liboptv/src'),('orient',L+'orientation.c'),('trackcorr_c_loop, trackback_c',L+'track.c')])
p('P30','What an operation returns depends on its arguments alone',
 'Repeating an operation of the library on the same arguments and files gives the same result to the last bit, whatever other operations were run before or in between on other data and whatever happens to be in unused memory: there is no hidden state between calls, and no result depends on memory that was never set.',
 ['histories','inputs'],'all operations and arguments, all sequences of other operations before and between, all contents of fresh heap and stack memory',
 'A test process calls each operation in a fixed order on fixed data with whatever memory it happens to get, so that leftovers of earlier calls and unset memory look like results.',
 ['liboptv/src'],[('all operations of the library','liboptv/src/*.c')])
p('P31','The Python bindings give back what they take',
 'Any history of calls of the Python interface, including calls that raise, can be repeated any number of times in one process without the memory in use growing with every repetition and without files staying open: what the objects, arrays, views, results and failed constructions took is released once nothing refers to them.',
 ['histories','fault_sequences'],'all histories of calls over all classes and functions of the bindings, successful or raising, repeated any number of times',
 'Tests end after one pass over the interface; nothing looks at what objects leave behind, and failed constructions are hardly made.',
 [B+'parameters.pyx',B+'calibration.pyx',B+'correspondences.pyx',B+'orientation.pyx',B+'tracking_framebuf.pyx',B+'tracker.pyx',B+'transforms.pyx',B+'image_processing.pyx',B+'segmentation.pyx'],
 [('__dealloc__ and the temporary C arrays of the functions',B+'*.pyx')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
