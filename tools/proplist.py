CB='vital/config/config_block.h vital/config/config_block.cxx'
P('C01','Configuration block is a map of keys to text with descriptions',
 'After any sequence of set, unset and locate operations a configuration block holds exactly the entries last set and not unset: each value trimmed of surrounding blanks, its description kept unless a new non-empty one is given, its source location kept. Reading, unsetting or describing a key that is not there fails with the documented error, or yields the supplied default.',
 'inputs histories','all keys, values and descriptions (including empty and non-ASCII bytes) and all operation orders within the bound',
 'The unit tests use a few fixed keys in one order each.',CB,
 [('value store','vital/config/config_block.cxx: i_set_value, unset_value, find_value, set_location'),('trimming','vital/config/config_block_types / string_trim')])
P('C02','A key marked read-only can never be altered or removed',
 'Once a key of a configuration block has been marked read-only, no way of modifying it (setting, unsetting, merging another block over it, going through a view) changes its value: the attempt fails with an error naming the violation. Keys that are not marked stay modifiable, and a mark made before the value exists takes effect all the same.',
 'inputs histories','all keys and all kinds and orders of modification attempts within the bound',
 'The tests check one set and one unset on fixed keys; not merges, views, or interleavings with other keys.',CB,
 [('read-only list','vital/config/config_block.cxx: mark_read_only, is_read_only, i_set_value, unset_value, merge_config')])
P('C03','Sub-blocks and views of a configuration show exactly one block',
 'A sub-block taken from a configuration contains exactly the entries whose key starts with the block name and separator, under the remaining key, with value and description, and is detached from the original. A view shows the same entries and every read, write, unset, mark or location made through it is one made on the original under the full key.',
 'inputs histories','all key sets, block names and one modification on either side, nested views included',
 'Tests use well-formed names; keys that merely share a prefix, empty remainders and writes through nested views are unreachable by samples.',CB,
 [('subblock','vital/config/config_block.cxx: subblock, subblock_view, available_values'),('view indirection','config_block m_parent handling in set/get/unset')])
P('C04','Merging configurations overwrites, adds and keeps as documented',
 'Merging one configuration block into another leaves the target with the union of the keys, the values and non-empty descriptions of the source winning, everything else kept, the source unchanged. A clash with a read-only entry is reported as an error.',
 'inputs','all contents of two-entry blocks on each side',
 'Tests merge two fixed blocks.',CB,[('merge','vital/config/config_block.cxx: merge_config')])
P('C05','Typed configuration values round-trip and bad text is refused',
 'Reading a configuration value as a number or boolean yields the number written, or the documented boolean for every accepted spelling in any letter case, and a text that does not start with a representable value is refused with a bad-cast error (or yields the supplied default). A value stored from a typed integer, boolean, character or text reads back equal.',
 'inputs','all texts up to the bound, all values of the integer types up to the bound',
 'Tests try a handful of spellings.',CB+' vital/config/config_block_types.h',
 [('cast','vital/config/config_block.h: config_block_get_value_cast, config_block_set_value_cast and the bool specialisation in config_block.cxx')],note='Floating-point round trips (limited to six digits by the text form) are outside the claim.')
P('C06','Any text is read as configuration exactly by the file grammar or refused',
 'Whatever bytes a configuration file holds, reading it either yields precisely the entries the documented line grammar defines for that text, or fails with a parse error; it never crashes, hangs or reads out of bounds.',
 'inputs','every file of up to the bounded number of bytes',
 'Tests read a few fixture files.','vital/config/config_parser.cxx vital/config/config_block_io.cxx',
 [('line parser','vital/config/config_parser.cxx: process_file, get_line, flush_line')])
P('C07','Blocks, includes, relative paths and read-only marks in files compose',
 'A configuration file built from assignments, nested blocks, includes, relative-path and local-value assignments yields the same entries, scopes, read-only marks and source locations as the documented meaning of each line in order. Unbalanced blocks, writing twice to a read-only entry and missing or broken includes are refused.',
 'inputs programs','every sequence of directive lines up to the bound, every placement of included files',
 'Fixtures contain each directive in isolation; orders and nestings explode.','vital/config/config_parser.cxx',
 [('directives','vital/config/config_parser.cxx: process_file'),('include lookup','config_parser.cxx: resolve_file_name')])
P('C08','Macro references expand to the provider value and nothing else changes',
 'Expanding a text replaces each reference of the form $TYPE{name} of a registered type by the value its provider gives for the name (nothing if it has none) and leaves every other byte, including references of unknown type, as it is. A provider (symbols, configuration block, environment, system) says whether it knows a name and which value it has, and only known names change the outcome.',
 'inputs','all texts up to the bound, all symbol names and values of one byte',
 'Tests expand a few fixed strings.','vital/config/token_expander.cxx vital/config/token_type_symtab.cxx vital/config/token_type_config.cxx',
 [('expander','vital/config/token_expander.cxx: expand_token')])
P('C09','A written configuration file reads back as the same configuration',
 'Writing a configuration block to a file and reading that file yields the same keys and values for every block whose values the file format can express, whatever the descriptions contain; descriptions appear as comments only. A file that cannot be written, or a block without entries, is reported.',
 'inputs','all two-entry blocks within the byte bounds and comment lengths around the line width; values containing the comment or macro characters are outside',
 'Tests write one block and compare fixed keys.','vital/config/config_block_io.cxx vital/config/config_parser.cxx',
 [('writer','vital/config/config_block_io.cxx: write_config_file, write_cb_comment')])
P('C10','Configuration files are searched and merged in the documented order',
 'Looking up a configuration file visits the environment path, the per-user, system-wide and installation directories in the documented order, versioned before unversioned; the first hit wins, and with merging every hit contributes with earlier ones taking precedence. An absolute name bypasses the search, and a name found nowhere is reported.',
 'configurations','every combination of environment variables set or unset, install prefix, version, and presence of the file in up to two candidate directories',
 'The test environment has one fixed set of directories.','vital/config/config_block_io.cxx',
 [('path list','vital/config/config_block_io.cxx: config_file_paths, read_config_file')])
P('U01','Splitting text into tokens loses and invents nothing',
 'Splitting a text at a set of delimiter characters appends exactly the maximal delimiter-free pieces in order to the result; empty pieces are kept or dropped as requested.',
 'inputs','every text and delimiter set up to the bounds','Tests split three fixed strings.','vital/util/tokenize.h',[('tokenize','vital/util/tokenize.h')])
P('U02','Iterating a matrix with the enumerator visits each stored entry once',
 'Enumerating a sparse matrix yields every stored entry exactly once with its row, column and value, in storage order, for any pattern of stored cells including none.',
 'inputs','every storage pattern of matrices up to the bound, both storage orders, compressed or not','Tests enumerate one matrix.','vital/util/enumerate_matrix.h',[('iterator','vital/util/enumerate_matrix.h')])
T='vital/types/'
P('U03','Timers measure the time between start and stop',
 'A timer that runs tells the time since its last start, a stopped one the time between its last start and stop, in seconds, and one never started zero; starting again begins anew, and timers do not affect each other. A scoped timer prints its title, if any, and the time from its making to its end, once, at the end. Processor and wall clock timers are available where the platform has the clocks.',
 'histories','all sequences of operations up to the bounded length at all clock readings, also ones that run backwards','The tests measure a few real intervals, and skipped the wall clock.','vital/util/timer.h vital/util/cpu_timer.h.in vital/util/wall_timer.h.in',[('timers','cpu_timer, wall_timer, scoped_timer')])
P('T01','Image pixel access reaches exactly the pixel or reports out of range',
 'An allocated image has the requested dimensions, one byte per pixel and channel, laid out in planar or interleaved order as asked; a window on existing memory addresses pixels by its steps. Every access by column, row and channel reaches exactly the addressed pixel of the memory, or fails with an out-of-range error when any coordinate is outside; the colour of a pixel comes from its first three channels, or from the first alone when there are fewer.',
 'inputs configurations','all small dimensions, every 32-bit coordinate, all step combinations that stay in the buffer',
 'Tests check a few coordinates of a few sizes.',T+'image.h '+T+'image.cxx',[('accessors','vital/types/image.h: at, operator()'),('layout','image constructors')])
P('T02','Image copies share pixels, deep copies and resizing never alias',
 'Copying or assigning an image shares its pixels, which live as long as any sharer; copying the content, resizing, and copying blocks of image memory produce independent pixels of equal value. Resizing to the same dimensions keeps the pixels, any other resize leaves other sharers untouched and gives each pixel its own byte.',
 'inputs histories','all small dimensions, both layouts, mirrored windows, all pixel values, one later write',
 'Tests use one shape per operation.',T+'image.cxx',[('sharing','image copy constructor, operator=, set_size, copy_from, image_memory')])
P('T03','Comparing and transforming images depends on pixels, not layout',
 'Two images compare equal exactly when dimensions and all pixel values agree, whatever their memory layouts. Transforming an image in place applies the function exactly once to each pixel, in increasing memory order for contiguous layouts, and touches nothing else.',
 'inputs configurations','all small dimensions, every order and sign of the steps, all pixel values',
 'Tests try two layouts.',T+'image.cxx',[('comparison and transform','vital/types/image.cxx: equal_content, transform_image')])
P('T04','Timestamps order by time, else by frame, and never across domains',
 'Timestamps of the same domain compare by time when both have one, otherwise by frame number when both have one; in every other case all comparisons are false. The order is antisymmetric and transitive among comparable stamps carrying the same information.',
 'inputs','all 64-bit times and frames, all domains, every combination of set and unset parts',
 'Tests compare a handful of stamps.',T+'timestamp.cxx',[('operators','vital/types/timestamp.cxx')])
P('T05','Timestamps convert to seconds and to configuration text without loss',
 'Setting a timestamp in seconds and reading it in seconds agree with its microsecond count. A valid timestamp stored in a configuration reads back equal, and text that does not hold two integers is refused.',
 'inputs','microseconds up to 2^31, sixty-fourths of seconds up to 2^20 s, texts up to the byte bound',
 'Tests convert one value.',T+'timestamp.cxx '+T+'timestamp_config.h',[('conversion','set_time_seconds, get_time_seconds'),('configuration text','timestamp_config.h')])
P('T06','Covariances behave as symmetric matrices in storage and conversion',
 'Writing element (i,j) of a covariance changes elements (i,j) and (j,i) and no other; the full matrix, copies and conversions to the other precision carry every element; construction from a matrix takes its symmetric part.',
 'inputs','all element values (bit patterns where only stored), dimensions 2 and 3, both precisions',
 'No test converts between precisions.',T+'covariance.h',[('packed storage','vital/types/covariance.h: vector_index, conversions')])
P('T07','Features and landmarks keep all attributes through conversion and text',
 'Every attribute of a feature or landmark reads back as set, and survives conversion to the other precision, cloning and (except the covariance, which the text form leaves out) writing to and reading from text; text without numbers is refused.',
 'inputs','all whole-number attribute values up to 10^5, all colours; text: each field over a grid',
 'No test converts attributes such as the covariance.',T+'feature.h '+T+'feature.cxx '+T+'landmark.h '+T+'landmark.cxx '+T+'color.h',[('conversion','feature_ and landmark_ constructors'),('text','stream operators')])
P('T08','A track stays strictly ordered by frame and finds each of its states',
 'However states and whole tracks are appended, a track holds exactly the accepted states in strictly increasing frame order; an append that would break the order is refused and changes nothing. Looking a frame up yields its state or none, and the frame range and set reflect the states held.',
 'histories inputs','all append sequences up to the bound with any 64-bit frame numbers, any queried frame',
 'Tests append a few fixed frames.',T+'track.h '+T+'track.cxx',[('append and find','vital/types/track.cxx')])
P('T09','Track set queries select exactly the tracks they promise',
 'For every set of tracks and every absolute or end-relative frame, the active, inactive, new and terminated queries return exactly the tracks with, without, starting or ending on a state at that frame, in order; a relative frame before the start selects none. The frame range, frame and id sets and the look-up by id agree with the tracks.',
 'inputs','up to the bounded number of tracks with up to two states, all frames, offsets and ids in range, empty tracks included',
 'Tests use one generated track set starting at frame zero.',T+'track_set.cxx',[('queries','vital/types/track_set.cxx: offset_to_frame, active_tracks, ...')])
P('T10','Per-frame features, descriptors and the tracked share match the tracks',
 'The features and descriptors of a frame are exactly those of the states on it, in track order, and the share of tracks followed between two frames is the number of tracks on both divided by the number on either, or zero.',
 'inputs','up to the bounded number of tracks, small frames, all offsets around them',
 'Tests use one generated set.',T+'track_set.cxx',[('queries','frame_features, frame_descriptors, last_frame_features, percentage_tracked')])
P('T11','A camera projects through its pose and intrinsics consistently',
 'The projection matrix, the projection of a point, and the depth of a point all follow from centre, rotation and intrinsics: project equals mapping the rotated, centred point through the intrinsics (distortion included), depth is the third camera coordinate, translation is minus the rotated centre, and setting a pose part keeps the documented other parts. Copies and clones are independent; absent intrinsics become the defaults; writing as text and reading back keeps the camera.',
 'inputs','all integer coordinates within the bound, the 24 axis rotations, focal lengths/aspects/depths powers of two; look_at for eight fixed directions',
 'Tests use a few cameras and compare within tolerances.',T+'camera.h '+T+'camera.cxx '+T+'camera_intrinsics.cxx',[('projection','vital/types/camera.cxx: as_matrix, project, depth'),('pose','simple_camera setters'),('text','operator<<, operator>>')])
P('T12','Camera intrinsics map, unmap and distort by the documented model',
 'The calibration matrix, mapping a point to the image and unmapping it back agree with each other and with focal length, aspect ratio, skew and principal point; the distortion follows the documented radial, tangential and rational model for every number of coefficients; undistorting inverts it for moderate distortion; building from a matrix, copying and the text form keep every parameter.',
 'inputs','all integer parameters and points within bounds, divisors powers of two; undistortion for fixed coefficient sets and a grid of points',
 'Tests use fixed parameter sets without isolating single coefficients.',T+'camera_intrinsics.h '+T+'camera_intrinsics.cxx',[('mapping','map, unmap'),('distortion','distort, undistort and its Jacobian'),('text','stream operators')])
P('T13','Homographies map points, compose and invert as projective transforms',
 'Mapping a point multiplies its homogeneous coordinates by the matrix and divides; a point is refused exactly when it maps to infinity. Products compose the maps, an inverse undoes the map (singular matrices are refused), normalising divides by the last element when it is not zero, and copies and precision conversions keep all elements.',
 'inputs','all integer matrices and points within bounds, divisors powers of two where values are compared, both precisions',
 'Tests try a few matrices.',T+'homography.h '+T+'homography.cxx',[('map','homography_::map_point'),('algebra','inverse, normalize, operator*')])
P('T14','Frame-to-frame homographies compose only along matching frames',
 'Composing two frame-to-frame homographies is refused unless the right one ends on the frame the left one starts from; otherwise the result runs from the right one\'s source to the left one\'s target with the product matrix. Inverting swaps the frames; the default is an identity of a frame to itself; the stored matrix is detached from the caller\'s.',
 'inputs','all 64-bit frame numbers, all integer matrices within bounds (determinant one for inverses)',
 'Tests compose a few fixed frames.',T+'homography_f2f.cxx '+T+'homography_f2w.cxx',[('composition','f2f_homography::operator*'),('inverse','f2f_homography::inverse')])
P('T15','Rotations form a group whose forms all agree',
 'Applying a rotation, composing, inverting, and converting to and from matrix, quaternion, axis-angle and the other precision agree with the rotation matrix; equality, the text form, and interpolation end points keep the rotation.',
 'inputs','the 24 rotations of the cube (and all pairs), any integer vector within bounds, both precisions; general angles are outside',
 'Tests use a few angles.',T+'rotation.h '+T+'rotation.cxx',[('group','rotation_ operators'),('conversions','rotation_ constructors and matrix()')],note='general rotations (irrational coefficients) are outside: sine, cosine and square roots have no exact solver encoding')
P('T16','Similarities apply, compose, invert and convert consistently',
 'A similarity scales, rotates and translates; composition, inverse, the 4x4 matrix form, construction from a matrix (the identity when it is no similarity), the text form and precision conversion all describe the same map, and equality compares every part.',
 'inputs','the 24 axis rotations, scales powers of two, all integer translations and points within bounds, both precisions',
 'Tests use two similarities.',T+'similarity.h '+T+'similarity.cxx',[('algebra','similarity_ operators, inverse'),('matrix form','constructor from a matrix, matrix()')])
P('T17','Geographic positions know whether they are empty, valid and equal',
 'A default position is empty and invalid; a position is valid exactly when latitude lies within +-90 and longitude within -180 and 360 degrees (documented limits); equality compares both coordinates; setters set exactly the named coordinate; the text form shows both numbers and leaves the stream format as it was.',
 'inputs','every pair of 64-bit double bit patterns (NaN and infinities included); text: all multiples of 1/8 in range',
 'Tests try a handful of positions.',T+'geo_lat_lon.h '+T+'geo_lat_lon.cxx',[('validity','geo_lat_lon::is_valid, is_empty')])
P('T18','Colours keep, compare and print their three channels',
 'A colour is white by default, keeps the channels it was given, equals another exactly when all three channels agree, and reads back equal from its text form without consuming what follows.',
 'inputs','all 2^24 colours and all pairs','Tests use a few colours.',T+'color.h',[('operators','vital/types/color.h')])
P('T19','Descriptors return exactly the data stored and copy deeply',
 'A descriptor of fixed or dynamic size reports its size and bytes, returns its numbers as doubles and its raw bytes exactly, and copying or assigning one (itself included) yields independent equal data.',
 'inputs','all element values of five element types, lengths up to the bound','Tests use one descriptor.',T+'descriptor.h '+T+'descriptor_set.h',[('storage','descriptor_fixed, descriptor_dynamic')])
P('T20','Simple collections return exactly the elements they were given',
 'The in-memory match, feature, descriptor, camera and landmark collections hold exactly the elements (and ids) they were built from, in order, report their number, and are not affected by later changes to the container they were built from.',
 'inputs','all collections up to the bound with any 64-bit ids or 32-bit indices','Tests use one collection each.',T+'match_set.h '+T+'feature_set.h '+T+'descriptor_set.h '+T+'camera_map.h '+T+'landmark_map.h',[('collections','simple_* classes')])
P('T21','Essential and fundamental matrices agree with pose and conversion',
 'An essential matrix is the cross-product matrix of the unit translation times the rotation; the twisted rotation describes the same matrix up to sign; copies and conversion to the other precision keep pose and elements, and a fundamental matrix keeps the rank-two matrix it was given, up to length, and drops the smallest singular value of any other.',
 'inputs','the 24 axis rotations, translations along each axis with several lengths, both precisions; decomposing a general matrix only at fixed matrices',
 'No test converts between precisions.',T+'essential_matrix.h '+T+'essential_matrix.cxx '+T+'fundamental_matrix.h '+T+'fundamental_matrix.cxx',[('matrix','essential_matrix_::compute_matrix'),('conversion','copy constructors')])
I='vital/io/'
P('I01','Camera files keep the camera and bad ones are reported',
 'Writing a camera to a file (its directory is created when absent) and reading that file, directly or by image name and camera directory, yields the same centre, rotation, calibration and distortion. A file that is absent, is a directory, ends early or holds something that is not a number is reported, and so is a target that cannot be written.',
 'inputs','one number of the camera symbolic over whole numbers of five digits at a time, rotations of the cube, three lengths of distortion; every cut and every single bad token',
 'Tests read and write one file.',I+'camera_io.cxx '+I+'eigen_io.h '+T+'camera.cxx',[('files','read_krtd_file, write_krtd_file')])
P('I02','A camera directory yields exactly the cameras of the images that have one',
 'Reading the cameras of a list of images maps the position of every image whose camera file exists to that camera and leaves out the others; it is an error when the directory is absent, when no image has a camera, or when a camera file is malformed.',
 'inputs configurations','every list of images up to the bound over six names, every subset of camera files present','Tests read one directory.',I+'camera_map_io.cxx '+I+'camera_io.cxx',[('map','read_krtd_files')])
P('I03','Landmark files keep every landmark and follow their header',
 'Writing landmarks and reading the file yields the same ids, positions, normals, colours and observation counts. Reading follows the vertex properties named in the header in any order and case, ignores unknown ones and other elements, numbers landmarks without an id, and never yields more vertices than announced. Absent files, unwritable targets and empty sets are reported.',
 'inputs','one number symbolic in six digits at a time; five header layouts with every column symbolic in turn, up to three lines','Tests read one file.',I+'landmark_map_io.cxx',[('files','read_ply_file, write_ply_file')])
P('I04','Track files keep every state and refuse incomplete lines',
 'Writing tracks and reading the file yields the same tracks with the same frames and features, in order of first appearance however lines of different tracks interleave. A line that is incomplete or not numeric is reported, as are absent files, unwritable targets, empty sets, and states without a feature (before the target is touched).',
 'inputs','one number symbolic at a time over its digits, up to the bounded tracks and states; all interleavings up to the bound; every cut and bad token of a line','Tests read and write one set.',I+'track_set_io.cxx '+T+'feature.cxx',[('files','read_track_file, write_track_file')])
A='vital/algo/'
P('A01','The registry knows exactly the implementations registered',
 'After any sequence of registrations, the listing of names (of one kind or all), the checks for a kind or an implementation, and creation by name answer from exactly what was registered; registering a name again replaces it, nothing is registered for a null item, and a created algorithm is a separate copy of the registered one. The combined configuration holds every implementation\'s configuration under its name.',
 'inputs histories','all sequences of registrations up to the bound over two kinds whose names and implementations are arbitrary bytes (a colon in a kind name is outside)',
 'Tests register nothing at run time.','vital/registrar.h '+A+'algorithm.cxx '+A+'algorithm.txx',[('registry','registrar::register_item, find, registered_names'),('lookup','algorithm::registered_names, has_impl_name, create')])
P('A02','Nested algorithms are configured from and into their own block',
 'Storing a nested algorithm writes its implementation name and its configuration below its own name and touches nothing else (with no algorithm, an existing choice is kept and a missing one becomes empty), listing every registered implementation in the description. Building one creates a fresh algorithm configured from exactly its block when the named implementation is registered, and otherwise leaves the pointer as it was. Checking accepts exactly a present, registered choice whose implementation accepts its block. What is stored rebuilds the same algorithm.',
 'inputs configurations','all names, choices and values of the bounded length, up to two registered implementations of two kinds, directly and through the kind',
 'No test nests algorithms.',A+'algorithm.cxx '+A+'algorithm.txx '+A+'algorithm.h',[('nested','algorithm::get_/set_/check_nested_algo_configuration')])
P('A03','Convenience forms of algorithms pass exactly the corresponding data on',
 'The overloads of the estimation, camera optimisation and feature filtering interfaces hand the implementation exactly the corresponding points: cameras and landmarks paired by shared id, features paired by match in match order with the scale, calibration and inlier list passed through, for each camera the features and landmarks of the tracks seen on its frame, and descriptors following the retained indices. The implementation\'s answer is returned, and missing inputs are refused.',
 'inputs','all 64-bit ids in every order, all match indices, up to the bounded number of elements',
 'Tests call none of these overloads.',A+'estimate_similarity_transform.cxx '+A+'estimate_homography.cxx '+A+'estimate_essential_matrix.cxx '+A+'estimate_fundamental_matrix.cxx '+A+'optimize_cameras.cxx '+A+'filter_features.cxx',[('pairing','map_to_pts, estimate overloads, optimize, filter')])
P('A04','Images are loaded and saved only where that is possible',
 'Loading calls the implementation exactly when the name is an existing file, and otherwise reports that it does not exist or is no file; saving calls it exactly when the containing directory exists, and otherwise reports that it is absent or no directory. The name and data are passed on unchanged.',
 'inputs configurations','every path of the bounded length over the letters of a fixed small tree, dots and slashes',
 'Tests do not use the interface.',A+'image_io.cxx',[('checks','image_io::load, image_io::save')])
P('A05','Longitudes fall into their six degree zone',
 'The zone of a longitude is one to sixty, counting six degree steps from 180 west, for longitudes given in any turn the code accepts.',
 'inputs','all longitudes from -900 to 540 degrees in sixteenths of a degree (256ths in the thorough run)','No test covers it.',A+'geo_map.cxx',[('zone','geo_map::latlon_zone')])
B='vital/bindings/c/'
P('A06','Every kind of algorithm is registered, made and configured as its own',
 'Each of the public kinds of algorithms has its own name. An implementation registered for one kind is listed, found, made as a separate copy, and configured through the nested forms for this kind alone, under its name; another kind with an implementation of the same name is not affected, and unknown names make nothing.',
 'inputs','all twenty kinds, all implementation names up to the bounded length, all values of a setting','Tests register implementations of a few kinds.','vital/algo/algorithm.txx vital/algo/analyze_tracks.cxx vital/algo/bundle_adjust.cxx vital/algo/close_loops.cxx vital/algo/compute_ref_homography.cxx vital/algo/detect_features.cxx vital/algo/draw_tracks.cxx vital/algo/extract_descriptors.cxx vital/algo/initialize_cameras_landmarks.cxx vital/algo/match_features.cxx vital/algo/triangulate_landmarks.cxx',[('kinds','algorithm_def< ... >::register_instance, create, registered_names, has_impl_name, get_impl_configurations, ..._nested_algo_configuration')])
P('B01','Handles of the C interface stay good until destroyed as often as handed out',
 'A handle denotes its object until it has been destroyed as many times as it was handed out; the object is released then and not before, unless somebody else holds it. Objects built from others keep them alive. A null or expired handle is reported as an error (code -1 with a message, or a null or zero result) and never crashes or disturbs other handles.',
 'histories','all histories of handing out, destroying and letting go over two objects up to the bound, for image containers and track sets; all frame numbers of camera maps of up to three cameras; every null handle',
 'Tests destroy nothing twice and hand out nothing twice.',B+'helpers/c_utils.h '+B+'image_container.cxx '+B+'camera_map.cxx '+B+'track_set.cxx '+B+'track.cxx '+B+'image.cxx '+B+'config_block.cxx',[('cache','SharedPointerCache::store, get, erase'),('users','vital_image_container_*, vital_track_*, vital_trackset_*, vital_camera_map_*, vital_config_block_subblock*')])
P('B02','The C interface reports every failure with its code and message',
 'A call given an error handle leaves it untouched when it succeeds and otherwise stores the documented code (for config files 1 not found, 2 not readable, 3 not parsable, -1 anything else) with the complete message of the failure; a null handle is always allowed. Reading and writing config, camera and track files through it finds, accepts and refuses the same files with the same contents as the C++ functions.',
 'inputs configurations','every kind of file failure with symbolic names and contents up to the bound, every subset of the standard locations, with and without handle',
 'No test exercises the C interface.',B+'helpers/c_utils.h '+B+'config_block.cxx '+B+'camera.cxx '+B+'track_set.cxx '+B+'error_handle.cxx',[('messages','POPULATE_EH, STANDARD_CATCH'),('files','vital_config_block_file_read, _from_standard_location, _file_write')])
P('B03','A configuration behaves through the C interface as it does in C++',
 'After any sequence of setting, unsetting, marking and merging through the C interface, directly or through views, every query gives what the C++ block gives after the same operations: values, descriptions, defaults, booleans with their errors, read-only marks, and the list of keys as terminated strings. Null arguments change nothing.',
 'inputs histories','all sequences up to the bound over three keys, values of arbitrary bytes',
 'No test exercises the C interface.',B+'config_block.cxx '+B+'common.cxx '+B+'helpers/c_utils.cxx',[('block','vital_config_block_*'),('strings','vital_string_new, make_string_list')])
P('B04','Images made and read through the C interface hold the given pixels',
 'An image made from memory holds, at every column, row and plane, the byte found at the given steps (a negative plane step reverses the planes), independent of that memory afterwards. Dimensions, steps, size and first pixel are those of the image, copies share pixels, and a container gives back the image it was made from.',
 'inputs','all memory contents, all steps up to the bound in either direction, sizes up to two by two (three in the thorough run) by three',
 'No test exercises the C interface.',B+'image.cxx '+B+'image_container.cxx',[('copying','vital_image_new_from_data'),('access','vital_image_* accessors')])
P('B05','Algorithms are created, configured, cloned and run through the C interface',
 'Creation by name succeeds exactly for registered implementations; clones and instances are independent and live until destroyed; configuration is read, set and checked as in C++, and choosing a new implementation replaces and releases the old one while an unknown choice leaves it alone. Running an algorithm passes exactly the given objects on and hands out exactly its result; a handle of the wrong kind, a missing result or an exception is reported.',
 'inputs histories','all names and values of the bounded length, three interfaces (image reading, conversion, tracking)',
 'No test exercises the C interface.',B+'algorithm.cxx '+B+'helpers/algorithm.h '+B+'algo_def/image_io.cxx '+B+'algo_def/convert_image.cxx '+B+'algo_def/track_features.cxx',[('common functions','DEFINE_COMMON_ALGO_API'),('general functions','vital_algorithm_*_impl_configuration')])
K='vital/kwiversys/'
P('B06','Plugins are loaded and listed through the C interface as in C++',
 'The C functions add search directories at the end, load all modules or the one named, and list exactly the names of the modules that registered without failure, each as a text of its own. A missing output, name or path, or a module that throws, never ends the caller and leaves the list as it was.',
 'inputs','all outcomes of opening, binding and registering two modules, a range of names','No test.','vital/bindings/c/algorithm_plugin_manager.cxx',[('C interface','vital_apm_register_plugins, vital_apm_register_single_plugin, vital_apm_add_search_path, vital_apm_registered_module_names')])
P('E01','An exception says what went wrong and carries what it was given',
 'Every exception of the library keeps the kind, implementation, reason, message, sizes, path, key and values it was made with in its members, unchanged by copying, and its text contains each of them; exceptions for different conditions differ in text. Each is caught as its base kinds and as a standard exception.',
 'inputs','all texts up to the bounded length, a range of sizes','Tests only catch exceptions.','vital/exceptions/algorithm.cxx vital/exceptions/base.cxx vital/exceptions/image.cxx vital/exceptions/io.cxx vital/exceptions/math.cxx vital/config/config_block_exception.cxx',[('exceptions','kwiver::vital exceptions')])
P('K01','Base64 text keeps every byte and decoding stays within its buffers',
 'Encoding yields the standard text of the data (with end marks when asked for), decoding that text with a known length, a known text size or neither yields the data again and its length. Decoding stops at the first group with a character outside the alphabet, and never reads beyond the given text or writes beyond the decoded bytes.',
 'inputs','all data and all texts up to the bounded length','No test of the build exercises the library.',K+'Base64.c '+K+'Base64.h.in',[('coding','kwsysBase64_Encode, kwsysBase64_Decode')])
P('K02','A digest depends on the bytes alone, however they arrive',
 'The MD5 digest is a function of the bytes appended since initialization: it is the same in whatever pieces, at whatever places in memory they arrive, with empty pieces anywhere, and after the state is initialized again. A negative length takes the text up to its end. The digest of a message is the one of the standard. Its text form is the two lower case hexadecimal digits of each byte in order, and nothing behind it is written.',
 'inputs','all messages of a range of lengths around the block size, all their splits at a range of places','No test of the build exercises the library.',K+'MD5.c '+K+'MD5.h.in',[('digest','kwsysMD5_Initialize, kwsysMD5_Append, kwsysMD5_Finalize, kwsysMD5_FinalizeHex, kwsysMD5_DigestToHex')],note='The identity with the standard is checked for 560 fixed messages of 0 to 139 bytes only; everything else holds for all bytes of the bounded messages.')
P('K03','Paths are split, collapsed, related and taken apart without loss',
 'Splitting a path gives its root and the parts between separators, and joining them gives the path again. A collapsed path is the root of the path (or of the base, or the home directory) followed by the parts left after dropping empty parts and single dots and letting double dots cancel a part, never above the root. The relative path between two full paths leads from the one to the other. Directory, name and extensions of a file name are its parts, the directory without trailing slashes unless it is a root. A path lies in a directory exactly when it continues it after a slash.',
 'inputs','all paths up to the bounded length (network paths and drive letters only where stated)','Tests use a few fixed paths.',K+'SystemTools.cxx '+K+'SystemTools.hxx.in',[('paths','SplitPath, JoinPath, CollapseFullPath, RelativePath, GetFilename*, IsSubDirectory, ConvertToUnixSlashes')])
P('K04','A search finds the first match, as long as the patterns ask for',
 'A search reports a match exactly when some part of the text matches the pattern; the match begins at the first place possible, its end and the parts taken by groups follow from alternatives and repetitions tried in their order, longest first. Searching changes neither pattern nor text, and can be repeated. A copy of a pattern behaves as the original, including its last match. Malformed patterns are refused.',
 'inputs','all texts up to the bounded length, for patterns of every form built from a range of parts','The tests run about fifty fixed patterns.',K+'RegularExpression.cxx '+K+'RegularExpression.hxx.in',[('regular expressions','RegularExpression::compile, find, start, end, match, copy, operator==')])
P('K05','Command line options take exactly their values',
 'Every argument is handled by the option it names, or else is counted as remaining or passed to the handler for unknown ones. Options of each form store exactly their value, of the type of the variable, and a missing or misplaced value fails the parsing. Parsing stops when a callback asks for it. Help text lists every option once with its description, in lines within the width, without reading or writing outside its texts.',
 'inputs','all argument texts up to the bounded lengths for a range of option sets','Six fixed command lines in the tests.',K+'CommandLineArguments.cxx '+K+'CommandLineArguments.hxx.in',[('command line','CommandLineArguments::AddArgument, AddCallback, Parse, GetRemainingArguments, GetHelp')])
P('K06','Hash tables hold exactly what was put into them',
 'The hash maps and sets, with single or multiple keys, behave as their ordered counterparts up to order, however keys collide: inserting one element or a range, indexing, finding, counting, ranges of equal keys and of iterators, erasing by key, place or range, clearing, growing, copying, assigning and swapping keep every element once, with its value, reachable by its key and by iteration, and tell exactly what changed. Growing happens before a bucket holds more than one element on average. Equal texts are one key.',
 'histories','all histories of the bounded length over six keys, under seven collision patterns, from empty and full tables','One test inserts two elements.',K+'hashtable.hxx.in '+K+'hash_map.hxx.in '+K+'hash_set.hxx.in '+K+'hash_fun.hxx.in',[('hash tables','hash_map, hash_multimap, hash_set, hash_multiset')])
P('K07','Text helpers change exactly what they name',
 'Replacing, cropping, splitting, escaping, removing and counting characters, changing case, and comparing texts without case give for every text exactly the documented result: every occurrence is treated, from the left and without overlap, and all other bytes stay as they are. Missing texts are answered with nothing. Lines read from a stream are the lines of the text without their line ends, of any length or cut at the one asked for.',
 'inputs','all texts, patterns and sets up to the bounded lengths','Tests use a few fixed texts.',K+'SystemTools.cxx '+K+'SystemTools.hxx.in',[('texts','ReplaceString, Capitalized, CropString, SplitString, Split, EscapeChars, AppendStrings, GetLineFromStream')])
P('K08','Command lines and addresses are taken apart by their rules',
 'A Unix command line gives exactly its words: quotes of either kind group, a backslash takes the next byte as it is, blanks separate, empty quoted words stay, and a missing quote is supplied at the end; any length and number of words is taken. Comparing texts without case orders them as their lower case forms, up to the limit given. An address with a protocol, host and path gives exactly its user, password, host, port and path; a text without these parts is refused and changes nothing.',
 'inputs','all command lines up to the bounded length, also where the tables of the parser grow; all addresses of the stated form','No test of the build exercises these.',K+'System.c '+K+'String.c '+K+'SystemTools.cxx',[('commands','kwsysSystem_Parse_CommandForUnix'),('texts','kwsysString_strcasecmp, kwsysString_strncasecmp'),('addresses','SystemTools::ParseURL, ParseURLProtocol')])
P('K09','File patterns match exactly the names they describe',
 'A star matches any part of a name, a question mark any byte, a set any byte it lists or, complemented, does not, and none of them a separator; a bracket without an end is itself. The expression made from a pattern accepts exactly these names. Searching a directory lists each file whose path matches, once, and no other: directories and what is behind links only as asked for, and a loop of links ends.',
 'inputs','all patterns and names up to the bounded lengths; one directory tree with links and a loop','No test of the build exercises the library.',K+'Glob.cxx '+K+'Glob.hxx.in',[('patterns','Glob::PatternToRegex'),('search','Glob::FindFiles')])
P('K10','Files are compared, copied, judged and located by their bytes',
 'Two files differ exactly when one is missing or their bytes differ, at every length. A copy has the bytes and permissions of the source and leaves the source as it is; copying if different leaves an equal target untouched; a target directory takes the file under its name, missing directories are made, and a missing source fails and leaves the target as it is. A signature is found exactly at its offset; a file is binary when the share of other than text bytes reaches the limit. Locating a file tries the directory and then the directories of its path, from the shortest end of it to the longest. A directory lists exactly its entries.',
 'inputs','all contents up to the bounded length, also around the block size','No test of the build copies or compares files.',K+'SystemTools.cxx '+K+'Directory.cxx',[('files','SystemTools::FilesDiffer, CopyFileAlways, CopyFileIfDifferent, CopyAFile, FileHasSignature, DetectFileType, LocateFileInDir'),('directories','Directory')])
P('K11','The environment and the programs found in it are the ones set',
 'A variable has the value last put, is absent after it is taken back or put without a value, and no other variable changes. A search path is its parts in order, empty ones included. Searching for a program or library gives the first place that has a file of the name, searching for a file or directory the first place that has the name at all, provided it is of that kind; the system places come first unless they are excluded. Splitting a command line takes the longest beginning before a blank that is a program, and the rest as its arguments.',
 'histories','all changes of two variables up to the bounded length with all bounded values; all search paths up to the bounded length; all kinds of entries at four places','No test of the build exercises these.',K+'SystemTools.cxx',[('environment','SystemTools::PutEnv, UnPutEnv, GetEnv, GetPath'),('programs','SystemTools::FindProgram, FindFile, FindDirectory, FindLibrary, SplitProgramFromArgs')])
P('L01','Messages are logged exactly when their level is enabled',
 'The default logger writes a message exactly when its level is at or above the one set, and a new logger starts with all levels. Every line of a written message appears once, in order, behind the date and time of the message to the millisecond, the name of the level and, where a location was given, the file name and line. The logging macros build the message only when it is written, once, and name their own place. LOG_ASSERT evaluates its condition once and logs at the fatal level exactly when it does not hold. One name always gives the same logger, different names give loggers whose levels are independent.',
 'inputs','all messages and names up to the bounded lengths, all levels, all milliseconds of a second','One test reads the level flags; none looks at the output.','vital/logger/default_logger.cxx vital/logger/logger.h vital/logger/kwiver_logger.cxx',[('default logger','logger_factory_default, default_logger::log_message, LOG_ERROR ... LOG_TRACE, LOG_ASSERT')])
P('L02','A logging place tells its file, class, method and line',
 'From the signature a compiler records for a function, the method name is the name before the arguments without type and scopes, and the class name is the scopes, empty for a free function, whatever the return type and arguments contain. The file name and path are the two parts of the recorded path, and an unknown place gives question marks and line -1.',
 'inputs','all signatures of the stated form and all paths up to the bounded lengths','No test.','vital/logger/location_info.cxx',[('location','location_info::get_method_name, get_class_name, get_file_name, get_file_path')])
P('L03','The logger back end is the one asked for, or the built-in one',
 'The manager tries to load its factory once, from the object the environment names or else the default name. With an entry point found, that factory makes all loggers and the object stays loaded. Otherwise the object is closed again, the built-in factory is used, and a failing name from the environment is reported with its cause. Installing another factory makes it the current one and hands the previous one back intact.',
 'inputs','all outcomes of loading, all logger names up to the bounded length','No test loads a back end.','vital/logger/kwiver_logger_manager.cxx vital/logger/kwiver_logger_factory.cxx',[('manager','kwiver_logger_manager::instance, load_factory, set_logger_factory, get_logger')])
P('M01','Plugins are loaded from the search path, and only those asked for',
 'The search path is the parts of KWIVER_PLUGIN_PATH, the configured directories and the added ones, in this order. Loading opens, for each path part that is an existing directory, every file in it with the suffix of modules, or with a name given only that module, and nothing else. An opened module runs its registration once, with the registrar; it stays loaded and is listed under its name when registration reports no failure, and is closed otherwise. Loading once happens once.',
 'inputs','all outcomes of opening, binding and registering of the modules of two directories, a range of search paths and names','No test of the build loads a plugin.','vital/algorithm_plugin_manager.cxx',[('manager','algorithm_plugin_manager: constructor, register_plugins, load_plugins_once, add_search_path, registered_module_names')])
