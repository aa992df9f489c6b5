ALLQ = "every case of the stated lattice is executed; an outcome is distinct when the observed result (rounded) differs"

def register(C):
    lattice = "bounded-exhaustive exploration of an input lattice on the real code against an independent oracle (explicit-state, no sampling)"
    C("G01", lattice, "exploration",
      "complete within the rotation lattice; says nothing about quaternions between lattice points except by continuity",
      "rotations of a 33-axis x 18-angle lattice with both signs, all ordered pairs, all words of length 3 over a generator set; " + ALLQ,
      {"quick": "595 rotations x 2 signs, all ordered pairs, all 3-words over 73 generators", "thorough": "same, 3-words over 241 generators"},
      [dict(name="g01", src="g01.cpp")])
    C("G02", lattice, "exploration",
      "complete within the lattice; inside the Euler pole caps (|sin| > 0.998) the library documents an approximation and only finiteness is required",
      "rotations of a 33-axis x 18-angle lattice with both signs plus a 10^3 Euler-constructor grid and turns of 1e-1 to 1e-9 rad, through every conversion path; " + ALLQ,
      {"quick": "595 rotations x 2 signs x ~40 conversion paths, 1000 Euler constructions", "thorough": "plus 15,000 rotations on a dense fan of axes around the branch boundaries"},
      [dict(name="g02", src="g02.cpp")])
    C("G03", lattice, "exploration", "complete within the lattice of ordered pairs, both signs, 12 interpolation parameters and 3 time steps",
      "all ordered pairs of lattice rotations with both signs of each quaternion; " + ALLQ,
      {"quick": "241 rotations, all ordered pairs x 4 sign combinations", "thorough": "595 rotations, all ordered pairs x 4 sign combinations"},
      [dict(name="g03", src="g03.cpp")])
    C("G04", lattice, "exploration", "complete over words of length 2; length 3 and conjugations over a fixed residue class of third factors",
      "all pairs of generator poses (rotation lattice x 5 translations), all 3-words of a residue class, all points of a 5-point frame; " + ALLQ,
      {"quick": "about 146 generators, all pairs, every 5th triple", "thorough": "1205 generators, all pairs, every 7th triple"},
      [dict(name="g04", src="g04.cpp")])

    seqs = "explicit-state exploration of all operation sequences up to a depth on the real objects in lockstep with a reference model"
    C("L01", seqs, "model_checking", "all configuration histories up to the stated depth from three starting configurations, every category x level event compared; log4cpp built with AddressSanitizer",
      "operation sequences over a 44-operation alphabet (levels, additivity, appenders, creation) on a five-category tree; outcome = events per appender",
      {"quick": "depth 3 from two presets (depth 2 from the third), all 9 levels x 5 categories per state; all logging methods; fixed-context views", "thorough": "depth 4 from the empty preset, depth 3 from all"},
      [dict(name="l01", src="l01.cpp", repo="log4cpp", mode="asan")])

    C("L02", seqs, "model_checking", "all legal operation histories up to the stated depth; the caller-side contract (one owner, no reference to what an owner drops) prunes the rest; AddressSanitizer",
      "legal operation sequences over 26 operations (hand over by pointer or reference, remove, destroy, remove all, shut down) on two categories and three appenders two of which share a name; outcome = membership/ownership vector",
      {"quick": "depth 4", "thorough": "depth 5"}, [dict(name="l02", src="l02.cpp", repo="log4cpp", mode="asan")])
    C("L03", seqs, "model_checking", "all filter chains and thresholds of the stated bounds, all queue-appender histories up to the depth; AddressSanitizer",
      "filter chains over five behaviours x three ways of building them x 11 thresholds x 9 event levels; queue-appender sequences over 9 operations",
      {"quick": "chains up to length 3, queue histories of depth 5", "thorough": "chains up to length 4, depth 6"}, [dict(name="l03", src="l03.cpp", repo="log4cpp", mode="asan")])
    C("L04", seqs + "; operations of two threads in every order", "model_checking", "all context-operation histories up to the depth; all orders of two threads' operations (operation-level interleavings: the context is thread-private, so finer ones are equivalent unless privacy is broken)",
      "sequences over 8 operations on one thread; all 20 merges of two 3-operation threads; outcome = context string",
      {"quick": "depth 6; half of all pairs of thread programs x 20 orders", "thorough": "depth 7; all pairs x 20 orders"}, [dict(name="l04", src="l04.cpp", repo="log4cpp", mode="asan")])

    C("L05", "bounded-exhaustive exploration of a pattern grammar on the real layouts; each pattern is built from elements whose rendering the oracle knows (no parser in the oracle)", "exploration",
      "complete over the stated grammar and event set; time zone fixed to UTC; AddressSanitizer",
      "patterns of one to three elements out of literals and conversions with modifiers x six events; malformed patterns; all message lengths 0-40, 1000-1060 and around powers of two",
      {"quick": "all pairs over 167 elements, all triples over 35 elements, all width pairs 0..10 x 0..10 on every conversion", "thorough": "width pairs 0..24 x 0..24"}, [dict(name="l05", src="l05.cpp", repo="log4cpp", mode="asan")])

    C("L07", seqs + ", with write() faults enumerated by interposition", "model_checking", "all histories up to the stated depth over four limits/backup counts, all short-write/EINTR patterns of successive writes; rename/open failures other than an unreachable or blocked path are not injected",
      "rolling histories over 7 operations, file histories over 9 operations, fault patterns over 4 write behaviours; the whole directory is compared with the model after each history; outcome = directory contents",
      {"quick": "depth 5; up to 30 rolls with 1..13 backups; 4^5 write-fault patterns", "thorough": "depth 6; 4^7 write-fault patterns"}, [dict(name="l07", src="l07.cpp", repo="log4cpp", mode="plain", ldflags=["-Wl,--wrap=write"])])

    C("L06", "bounded-exhaustive exploration of a configuration-file grammar on the real configurators; each file is rendered from a description that the resulting hierarchy and output files are compared with", "exploration",
      "complete over the stated grammar; console, syslog and abort appenders are not configured",
      "property files: category levels x appender sets x additivity x thresholds x appender names; line orders; 64 formatting variants; variable references; refused files; simple files: all command sequences up to a depth; outcome = text delivered per event",
      {"quick": "a third of the settings product, every 47th line order, all formatting variants, command sequences of depth 3", "thorough": "the whole settings product, every 5th line order, command sequences of depth 4"},
      [dict(name="l06", src="l06.cpp", repo="log4cpp", mode="asan"), dict(name="l06u", src="l06.cpp", repo="core", defs=["-DWITH_UTUTIL"], shards=1)])

    C("X01", "bounded-exhaustive exploration of documents and content strings on the real parser and printers against a tree model", "exploration",
      "complete over the stated strings and tree shapes; text that itself spells a hexadecimal reference (documented pass-through), blank texts and adjacent texts are outside; AddressSanitizer",
      "all strings over a 15-character alphabet up to a length as text, attribute, CDATA and comment; all trees up to a size over six node kinds; every code point below 0x820 and boundaries in five spellings; all line-end strings; 768 white-space variants; through 6 printing x 5 parsing entry points",
      {"quick": "strings of length 4, trees of 5 nodes below the root", "thorough": "strings of length 5, trees of 6 nodes"}, [dict(name="x01", src="x01.cpp", repo="tinyxml", mode="asan")])
    C("X02", "bounded-exhaustive exploration of malformed inputs on the real parser: all short strings, all truncations, all single edits; token strings against a reference reading", "exploration",
      "complete over the stated strings and edits; inputs in exactly sized heap blocks under AddressSanitizer, so every access outside the input is seen",
      "nine document heads x all strings over a 19-character markup alphabet; all strings of eight tokens; every prefix and every single-character edit of six documents; memory (three encodings), stream and file entry points",
      {"quick": "strings of length 4 after each head, token strings of length 5, single edits", "thorough": "strings of length 5, token strings of length 7, all double edits (replace + delete)"}, [dict(name="x02", src="x02.cpp", repo="tinyxml", mode="asan")])
    C("X03", seqs, "model_checking", "all edit histories up to the stated depth, every link of the resulting tree compared with an ordered-tree model; allocation balance; AddressSanitizer",
      "edit sequences over about 100 operations (insert/link/replace/remove/clear/copy/assign at three places and positions, attributes, illegal edits) from a six-node tree; attribute sequences of length 5; typed queries; outcome = tree",
      {"quick": "depth 3", "thorough": "depth 4"}, [dict(name="x03", src="x03.cpp", repo="tinyxml", mode="asan")])

    C("D01", seqs, "model_checking", "all operation histories up to the stated depth on three variables, a container, an external shared payload and a by-value payload",
      "sequences over 58 operations (six constructors, copy, clone, payload write, time, invalidate, reset, container store and take, swap, const cast) compared with a reference-counted model; live payload objects counted; outcome = times, values and sharer counts",
      {"quick": "depth 4", "thorough": "depth 5"}, [dict(name="d01", src="d01.cpp", repo="core")])
    C("D02", lattice, "exploration", "complete over the stated dates, times of day, fractions and five fixed-offset zones; oracle is a day-by-day calendar",
      "calendar days 1970-2553 x 10 times of day x 13 sub-second parts x 5 zones; every second of a day; every microsecond of a second; the clock interposed at all boundary second x microsecond pairs; outcome = printed string",
      {"quick": "month ends, month starts, leap days and three whole years", "thorough": "every day of 584 years"}, [dict(name="d02", src="d02.cpp", repo="core")])
    C("D04", "exhaustive enumeration of directory contents and patterns on the real file system (scratch directory) against a set model", "exploration", "complete over the name alphabet; patterns are a fixed set whose meaning the oracle states independently",
      "all subsets of 12 directory entries (files, directories, links to files and directories, dead links) x 12 patterns, listed in two creation orders, with a trailing slash or into a non-empty list; outcome = returned list",
      {"quick": "4,096 directory contents", "thorough": "8,192 directory contents"}, [dict(name="d04", src="d04.cpp", repo="core")])
    C("D03", "bounded-exhaustive exploration of event histories on the real filter in lockstep with a reference filter", "model_checking", "all cyclic event patterns up to the stated length, all single outliers and clock jumps of a position range; near-ties of the outlier threshold end the comparison of a history",
      "cyclic patterns over six spacings (repeated and late events included) x three jitters for eight clocks, 240 events each; one outlier or jump at every position; least-squares variant over 12^3 patterns x 8 clocks; outcome = worst deviation in microseconds",
      {"quick": "patterns of length 3", "thorough": "patterns of length 4"}, [dict(name="d03", src="d03.cpp", repo="core")])
    C("S01", "bounded-exhaustive exploration of values, types, protocols and write sequences on the real serializers; comparison field by field, bit by bit", "exploration",
      "complete over the stated types, fill patterns and sequences; finite numbers only; the simple string form with numbers of at most six significant digits; the generic read front end does not compile with MessagePack enabled, so reading uses the per-protocol functions; AddressSanitizer",
      "57 types x 291 fill patterns x (text, binary, MessagePack via stream, packer and object zone) into three differently pre-filled targets; all ordered pairs of types with a third; three archives per stream; outcome = value",
      {"quick": "every pair of types with every fifth third type", "thorough": "every triple of types"}, [dict(name="s01", src="s01.cpp", repo="core", mode="asan")])
    C("S02", "exhaustive enumeration of truncation points (fault injection at every byte) on the real readers", "fault_enumeration",
      "every proper prefix of the stated streams; a text stream cut inside its last number is excepted (the text form cannot tell); AddressSanitizer",
      "57 types x fill patterns x three protocols x every prefix length, alone and behind a complete first value; MessagePack data of every type read as every other type; impossible coefficient counts; every prefix of the simple string form; outcome = type, protocol and length",
      {"quick": "5 fill patterns per type", "thorough": "17 fill patterns per type"}, [dict(name="s02", src="s02.cpp", repo="core", mode="asan")])
    C("S03", "exhaustive enumeration of truncation points and of write failures at every byte (RLIMIT_FSIZE) on the real readers and writers, in a scratch directory", "fault_enumeration",
      "complete over the stated types, values and fault points; a text file cut inside its last number is excepted (the text form cannot tell)",
      "13 value types x fill patterns x (value, measurement) x (text, binary, drop): round trip, every prefix of the file, writing stopped after every byte count; missing, empty, directory, full and foreign places; outcome = file content",
      {"quick": "4 fill patterns; write limits of long files sampled every 37 bytes between the first and last 40", "thorough": "17 fill patterns, every byte"}, [dict(name="s03", src="s03.cpp", repo="core")])

    C("G05", lattice, "exploration", "complete within the lattice of poses, covariances and points; the reference derivatives are numerical (relative tolerance 1e-6)",
      "uncertain poses (rotation lattice x translations x 6 covariances: zero, unit, diagonal, two full, singular) inverted, applied, converted and combined in all ordered pairs; " + ALLQ,
      {"quick": "about 95 poses, all ordered pairs, a third of the covariance pairs", "thorough": "400 poses, all ordered pairs, all covariance pairs"},
      [dict(name="g05", src="g05.cpp")])

    C("N01", "bounded-exhaustive exploration of small operands on the real templates against textbook definitions written out on plain arrays", "exploration",
      "complete over the stated operands; bilinear functions are settled by all pairs of unit matrices plus full asymmetric ones; pseudo-inverses of full-rank matrices only",
      "all vectors of sizes 1-4 over small alphabets in all pairs; all shapes 1-4 x 1-5 (products 1-4 x 1-4 x 1-4) over unit and full matrices; all 2x2 over 5 values, all 3x3 over 3 values, strided 4x4, all 5x5 permutation patterns; ranges of 0-5 elements; norms, determinants, inverses and pseudo-inverses again with tiny and huge units; outcome = result",
      {"quick": "every 4999th 4x4 matrix over 3 values, a third of the pairs of 4-vectors", "thorough": "every 211th 4x4 matrix, all pairs"},
      [dict(name="n01", src="n01.cpp")])

    C("N02", "bounded-exhaustive exploration of linear and quadratic models, covariances and measurement orders on the real templates against textbook matrix formulas", "exploration",
      "complete over the stated models; updates whose innovation covariance is singular are outside; the general backwardPropagation (documented as not working) and the unscented transform (does not compile) are outside",
      "models: unit, full and identity matrices of every shape, with and without quadratic terms x 5 covariances (one singular) x states; all in-place ranges; all sub-ranges of measured states; all orders of three measurements; updates and backward propagation again in five units of state and measurement; outcome = resulting covariance",
      {"quick": "up to 4 states and 3 measurements", "thorough": "up to 6 states"}, [dict(name="n02", src="n02.cpp")])

    C("N03", "bounded-exhaustive exploration of sample sequences (every sequence over a small alphabet, every choice of quaternion signs, every labelling) on the real templates against the definitions", "exploration",
      "complete over the stated sequences; rotations of one average lie within 0.6 rad of each other; constant sequences have no correlation; estimate_gaussian_fast has no body and is outside",
      "every sequence of scalars and 1-, 2-, 3-, 4- and 7-vectors over 6-7 symbols, every weighting over four levels, every two-label partition; every triple of 7 perturbations x all sign choices around every lattice rotation; all pairs of sequences for correlation; 1 to 4100 samples; outcome = mean and spread",
      {"quick": "sequences up to 5 (correlations up to 4)", "thorough": "sequences up to 6 (correlations up to 5), denser rotation lattice, quadruples of rotations"}, [dict(name="n03", src="n03.cpp")])

    C("N04", "exhaustive enumeration of every random draw (generator replaced by an enumerated choice) and every start on the real templates; reference expectation maximisation run alongside", "model_checking",
      "complete over the stated sample multisets, starts and quantised draws; samples are spaced so that the stopping tolerance (1e-2) never hides a step; mixtures whose components collapse (determinant below 1e-6) are outside",
      "all multisets of 3-6 samples x every tuple of start centres out of 9-12, also far ones; all draw sequences of the random start incl. both extremes; all multisets of 5-8 samples x all start means x 3 shapes x 3 weightings for mixtures, also in three other units; 1 to 520 samples; outcome = sample multiset",
      {"quick": "up to 6 samples and 3 clusters", "thorough": "up to 8 samples and 4 clusters"}, [dict(name="n04", src="n04.cpp", flags=["-DCOMPILER_USE_CXX11"])])

    C("N05", "bounded-exhaustive exploration of problems, starts, weightings, dampings, solvers and iteration limits on the real optimisers; every prefix of a run is observed through its iteration limit", "exploration",
      "complete over the stated families; the weighted residual is recomputed at the returned parameters; stationarity is only demanded of smooth, well-conditioned problems; DownhillSimplex does not compile and is outside",
      "all full-rank linear problems of a family (1-4 x 1-3) x all measurements x all starts x 3 weightings x 3 solvers; 8 nonlinear problems (redundant parameters, undefined regions, local minima, normalised parameters) x start lattices x 6 weightings x 3 solvers x dampings x every iteration limit; outcome = problem and start",
      {"quick": "limits up to 16", "thorough": "limits up to 64, denser starts, more linear problems"}, [dict(name="n05", src="n05.cpp")])

    C("N06", "exhaustive enumeration of every sequence of random draws: rand() of the C library is replaced by an enumerated choice and the real RANSAC loops are re-executed for each; all sample sets they try are recorded and judged", "model_checking",
      "complete over the stated data sets and draw sequences; at least one inlier required; the final estimate is made from the inliers of the best hypothesis, so its own inliers may differ",
      "all data sets of 3-5 points over small alphabets (duplicates, outliers, unsolvable sample sets) x every required minimum x every draw sequence of up to 3 runs, for the one-range, two-range and list interfaces; random-access and list iterators; parameter formulas over a grid; lines and shifts of 6 to 257 data; outcome = data set",
      {"quick": "up to 3 runs on 4 points, 2 runs on 5", "thorough": "up to 4 runs on 4 points, 3 runs on 5"}, [dict(name="n06", src="n06.cpp")])

    C("N07", "bounded-exhaustive enumeration of cost matrices on the real solver against brute force over all matchings; non-termination detected by a watchdog", "exploration",
      "complete for all matrices up to 3x3 over 3-4 values (negative and non-representable values included), for 4x4 over two values and the stated rectangular ones; larger matrices by stride and structured families; a row without partner is reported with an index beyond the columns",
      "all matrices of all shapes up to 3x3 over three alphabets, all 4x4 over {0,1}, all or every third 3x4 and 4x3, strided 4x4 and 5x5, eight structured families up to 7x7; fresh and reused solver; double and float; matrices up to 40 rows against an independent Hungarian reference; costs times powers of two; outcome = block of matrices",
      {"quick": "every 3rd 3x4, strides 211-19997 for the rest", "thorough": "all 3x4, strides 17-4999 for the rest, structured up to 8x8"}, [dict(name="n07", src="n07.cpp")])

    C("N08", "bounded-exhaustive exploration of ellipses, hyperbolas, parabolas, line pairs and of ellipsoids before cameras, on the real functors against the parametric form and a ray test", "exploration",
      "complete over the stated grids; ConicCovariance is outside (it follows another coefficient convention); a spheroid stands on the ground plane as its code documents",
      "8 axis pairs x all angles of a grid x 16 centres x 5 factors (two negative), and factors 1e-4 to 3e-12 and 1e5 to 2e12; exactly diagonal ellipses; 9 hyperbola shapes x angles x centres; parabolas; line pairs; cameras of the rotation lattice x 3 intrinsics x 4 ellipsoids x orientations x positions x 361 pixels each; outcome = ellipse or camera",
      {"quick": "16 angles, a third of the small rotation lattice", "thorough": "72 angles, medium rotation lattice"}, [dict(name="n08", src="n08.cpp")])

    C("N09", "bounded-exhaustive exploration of matrices and points of every supported dimension on the real functors and range functions against the homogeneous product written out", "exploration",
      "complete over the stated operands; transformation is bilinear, so the unit matrices with all small points settle it; points whose image is at infinity are outside the projection",
      "all supported matrix/vector shapes: unit and full asymmetric matrices x all points over 4-5 values; ranges of 0, 1, 2, 5 and all points, vectors, lists, back inserters, in place; every sequence of up to 4 points over 8-9 symbols for normalisation; all small 2x2, 3x3 and binary 4x4 matrices for the determinant and inverse functors; outcome = matrix or block",
      {"quick": "10-30 full matrices, sequences up to 4", "thorough": "60-200 full matrices, sequences up to 5"}, [dict(name="n09", src="n09.cpp")])

    C("N10", "bounded-exhaustive exploration of a parameter lattice for every function object; each directional derivative is compared with the Richardson difference quotient of an independently written model of the documented function", "exploration",
      "complete over the stated lattices; the Jacobians are rational or trigonometric in the parameters, so a wrong term shows at almost every lattice point; unit-quaternion parameters are checked along the tangent directions; Jacobians documented as small-angle approximations are held to that order",
      "every function of utAlgorithm/Function, utMath/Optimization/Function, NewFunction compositions, utTracking/Function, the tool-tip, absolute-orientation, covariance, lens and bundle-adjustment functions x rotation lattice x vectors over 3^3 points x step widths; all rows x all parameter directions; states = points, steps = single partial derivatives",
      {"quick": "rotation lattice level 0", "thorough": "rotation lattice level 1, more lens coefficients and networks"}, [dict(name="n10", src="n10.cpp")])

    C("E01", "bounded-exhaustive exploration of plane-to-plane maps and correspondence sets on the real estimators, judged by the generating map on a control grid", "exploration",
      "complete over the stated maps, subsets and orders; the linear estimator is exact for exact data, so one wrong coefficient shows on almost every map",
      "rotation x scale x shear x offset x perspective lattice (720 maps quick); all 4-subsets of a 3x3 grid in general position and larger sets, rotated and reversed orders, shifted and scaled source points, float and double; the square variant on every map and every corner order; 81 degenerate sets; 4 to 260 points (every number up to 70); the same data in tiny and huge units; outcome = map",
      {"quick": "4 turning angles", "thorough": "8 turning angles"}, [dict(name="e01", src="e01.cpp")])

    C("E02", "bounded-exhaustive exploration of cameras, point subsets and overall factors on the real estimators and matrix builders, judged by the generating camera", "exploration",
      "complete over the stated cameras, subsets and factors; point sets are fixed in general position",
      "intrinsics x rotation lattice x translations; all 6-, 7- and 8-subsets of eight points in varying order, shifted and scaled; decomposition with six overall factors of both signs; rendering matrices for three viewports and all points; origin flips; off-axis screens x eye positions; 6 to 260 points; scenes in tiny and huge units; outcome = camera or screen",
      {"quick": "rotation lattice level 0", "thorough": "rotation lattice level 1"}, [dict(name="e02", src="e02.cpp")])
    C("E03", "bounded-exhaustive exploration of camera pairs, point subsets, view orders and matchings on the real reconstruction code, judged by the generating scene", "exploration",
      "complete over the stated cameras, subsets and orders; the scene is a fixed set of points in general position",
      "rotations of both cameras x translations x intrinsics; all point subsets of size 8 to 10 for the eight-point algorithm (every fifth 8-subset in the quick tier); fundamental matrix factors of both signs x every point for the pose; all orders of 2 to 4 views x every point, exact and disturbed; permutations of the second image's list with missing points for the matching; 8 to 260 correspondences and 2 to 66 views; scenes in tiny and huge units; outcome = camera pair",
      {"quick": "rotation lattice level 0", "thorough": "rotation lattice level 1, all subsets and permutations"}, [dict(name="e03", src="e03.cpp")])

    C("E04", "bounded-exhaustive exploration of point sets, orders, rotations, scales and of every first random sample (rand() replaced by an enumerated choice) on the real estimators, judged by the generating transform and by brute-force optimality", "exploration",
      "complete over the stated point sets, rotation lattice, orders and outlier masks; point sets are fixed",
      "nine point sets (minimal, planar, collinear majority, far cluster, repeated) x rotation lattice x translations x point orders x three sizes x four scales; five disturbances (one a reflection) judged against every rotation of the lattice and local turns; refinement from nine starts; all outlier masks up to two of six points x every first shuffle; 3 to 260 points; sets in tiny and huge units; outcome = set and rotation",
      {"quick": "rotation lattice level 1 for exact, 0 for disturbed data, every 3rd or 13th order", "thorough": "level 1 throughout, all orders and masks"}, [dict(name="e04", src="e04.cpp")])

    C("E05", "bounded-exhaustive exploration of motions, offsets, quaternion signs and pose orders, and enumeration of the random draws of the motion selection, on the real calibration code, judged by the generating offset", "exploration",
      "complete over the stated motions, offsets and (for three poses) all sign patterns, sampled by a fixed stride for more; Tsai-Lenz is judged away from half turns of the offset and of the motions, which its parametrisation cannot represent",
      "six motions (minimal, large translations, half turns, nearly full turns, seven poses) x rotation lattice x translations incl. zero; sign patterns of all quaternions; orders; all and adjacent pairs; matrices in double and float; relative motions; selection sizes 1-4 x random draw sequences (three representative values per draw); incremental calibration; 3 to 34 poses; offsets in tiny and huge units; outcome = motion and offset",
      {"quick": "rotation lattice level 0", "thorough": "rotation lattice level 1, denser signs and draws"}, [dict(name="e05", src="e05.cpp")])

    C("E06", "bounded-exhaustive exploration of pivoting motions, tip offsets, quaternion signs and of every first random sample (rand() replaced by an enumerated choice) on the real calibration code, judged by the generating tip and by the normal equations", "exploration",
      "complete over the stated rotations, offsets, outlier masks and first samples; motions whose tip is nearly undetermined are outside",
      "all triples of a rotation set and walks of 4 to 20 rotations x 28 offsets x three pivot points x sign patterns; linear, old, refined, float and double; displaced tips for the reported error; four disturbances against the least-squares solution; all masks of up to two outliers of six poses x every first shuffle; 3 to 260 well-spread poses; offsets in tiny and huge units; outcome = motion",
      {"quick": "a third of rotation lattice level 0", "thorough": "rotation lattice level 1, all masks"}, [dict(name="e06", src="e06.cpp")])

    C("E07", "bounded-exhaustive exploration of camera poses, targets, cameras, point orders and refinement starts on the real estimators, judged by the generating pose, an independent reprojection error and numeric error propagation", "exploration",
      "complete over the stated targets, rotation lattice, distances, cameras and orders; targets seen nearly edge-on (below 9 degrees) and first points that are nearly collinear are outside",
      "ten targets (markers, grids, raised, displaced and tilted planes, non-planar) x rotation lattice x four positions x four cameras x four orders; with and without refinement, exact and disturbed; refinement from 24 starts with 1, 6 and 50 steps; pose from homography with factors of both signs; iterative estimation of non-planar targets; 4 to 130 points; targets in tiny and huge units; outcome = target and rotation",
      {"quick": "rotation lattice level 0", "thorough": "rotation lattice level 1, all starts"}, [dict(name="e07", src="e07.cpp")])

    C("E08", "bounded-exhaustive exploration of visibility patterns of a camera rig, local bundles and start errors on the real estimators, judged by the generating scene and an independent reprojection error", "exploration",
      "complete over the stated rigs and starts; the visibility patterns of three cameras are enumerated with a stride in the quick tier; target planes seen nearly edge-on are outside",
      "three targets x rotation lattice x visibility patterns of five points in up to three cameras x weights of three magnitudes; start poses 18 per pattern; covariance from numeric derivatives; one to three local bundles x all coarse visibility patterns; bundle adjustment of 1-4 cameras and 5-10 points from every single perturbed camera rotation, position or point and all together, exact and noisy; up to 16 cameras and 32 points; outcome = target and rotation",
      {"quick": "rotation lattice level 0, every 61st pattern of three cameras", "thorough": "rotation lattice level 1, every 7th pattern"}, [dict(name="e08", src="e08.cpp")])

    C("E09", "bounded-exhaustive exploration of lens coefficients, cameras and image points on the real distortion code, judged by the documented formula and by both compositions of the two directions", "exploration",
      "complete over the stated coefficient grid and image grid; inversion is demanded where the lens model itself can be inverted up to a little beyond the point; the fish-eye type is only stored, the library has no formula for it",
      "two, three and six radial coefficients x tangential pairs x four cameras of both signs x 35 image points; double and float; single, batch (0, 1, 2, 35 points) and in place; old and new interface; copies, assignment of every kind onto every kind, flips, general constructor; opening angles; outcome = coefficient triple",
      {"quick": "3 x 3 x 2 radial, 9 tangential, a fifth of the 27 denominators", "thorough": "6 x 4 x 3 radial, 16 tangential, all denominators"}, [dict(name="e09", src="e09.cpp")])

    C("T01", "exploration of every measurement history of the real filter to a fixed depth (explicit-state, the filter object is the state) in lock step with a textbook extended Kalman filter written in the harness", "model_checking",
      "complete over the stated alphabet and depth; for rotation derivatives the state is compared up to the difference between the exact and the documented small-angle derivative; once the angular velocity estimate nears the instability limit only validity is judged",
      "histories of poses (three accuracies, correlated errors, both quaternion signs), rotations, velocities and inverse velocities with time steps of zero to 300 ms x ten motion models (outside-in, inside-out, orders 0-3) x three noise settings; predictions by four times after each history; outcome = model, first event and digits of agreement",
      {"quick": "depth 3, 33 events", "thorough": "depth 3 over 44 events and depth 4 over 22 events"}, [dict(name="t01", src="t01.cpp")])

    C("T02", "exploration of every measurement history of the real rotation filter to a fixed depth (explicit-state, the filter object is the state) in lock step with a textbook extended Kalman filter; all orders and sign patterns of motion sets for the online hand-eye filters", "model_checking",
      "complete over the stated alphabet, depth, rotation lattice and motion sets; the filter state is compared up to the difference between the exact and the documented small-angle derivative; half-turn offsets, which the vector form of the online filter cannot represent, are outside",
      "histories of five rotations (both quaternion signs) and three velocities with time steps of zero to 300 ms; predictions forwards and backwards after each; long accurate sequences; hand-eye: rotation lattice x five motion sets x quaternion signs x all orders; outcome = first two events, digits of agreement, offset rotation",
      {"quick": "depth 4, 24 events; lattice level 0", "thorough": "depth 4, 40 events incl. steps back in time; lattice level 1"}, [dict(name="t02", src="t02.cpp")])

    C("L08", "stateless exploration of all interleavings, up to a preemption bound, of small multi-threaded programs on the real logging library under a controlled scheduler with a vector-clock race detector; every outcome checked against the outcome set of an explicit-state model", "model_checking",
      "complete over the stated programs and preemption bounds; sequentially consistent memory; switches happen at locks, atomic and volatile accesses and inside appenders, any other unordered shared access is itself reported as a race",
      "23 calls (logging, contexts, adding and removing appenders, priorities, additivity, new categories, shutdown, queries) in all programs of 1+1 calls, 2+1 calls, 1+1+1 calls; outcome = number of allowed and reached results",
      {"quick": "preemption bounds 4 (1+1), 2 (2+1), 1 (1+1+1, every second)", "thorough": "bounds 6, 3, 1 (all 1+1+1) and a fifth of the 2+2 programs at bound 1"},
      [dict(name="l08", src="l08.cpp", repo="log4cpp", mode="instr", ldflags=["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_mutex_trylock,--wrap=pthread_key_create,--wrap=pthread_getspecific,--wrap=pthread_setspecific,--wrap=pthread_self,--wrap=pthread_rwlock_rdlock,--wrap=pthread_rwlock_wrlock,--wrap=pthread_rwlock_unlock,--wrap=localtime,--wrap=gmtime"])])

    C("U01", "bounded-exhaustive exploration of settings, call sequences and injected system faults on the real driver over pseudo terminals, in lock step with an explicit-state model of the port", "fault_enumeration",
      "complete over the stated settings, alphabet and depth; pseudo terminals force eight bits without parity, so those two are judged by what the driver asks the system for",
      "5-8 bits x parity x stop bits x 12 baud rates x timeouts x two kinds of terminal; all byte values in both directions in every chunk size; call sequences over open, close, send, read, pending, flush, break, destruction, data from the peer, refused settings, short and failing transfers, hang-up; calls on a closed port next to an open one; outcome = states and exceptions of the sequence",
      {"quick": "all sequences of up to 4 of 16 calls", "thorough": "all sequences of up to 5 calls"},
      [dict(name="u01", src="u01.cpp", ldflags=["-Wl,--wrap=tcsetattr,--wrap=tcgetattr,--wrap=read,--wrap=write"])])

    C("N11", "exhaustive enumeration of the random choices: every draw of the generator is a choice point, all choice sequences over a level grid are run on the real code", "exploration",
      "complete over the stated draw levels (including the extreme draws), types, shapes and limits; a normal draw is judged relative to the standard draw from the same choices",
      "uniform scalars (five types, 111 ranges, single values included), vectors, matrices, poses; normal scalars and vectors (one deviation, one per component, full and singular covariances); uniform rotations, whose complete draw set must have the second and fourth moments of the uniform distribution; outcome = generator and limits",
      {"quick": "draw levels up to 240 per draw, 20 for rotations, 3-7 for normal vectors", "thorough": "40 levels for rotations, 5-13 for normal vectors"},
      [dict(name="n11", src="n11.cpp")])

    C("L09", "bounded-exhaustive exploration of priorities, facilities, message lengths, configuration texts and call sequences on the real syslog appenders; the local interface is a recording stand-in, the remote one is received over loopback datagrams", "exploration",
      "complete over the stated priorities, facilities, lengths, texts and call depth; AddressSanitizer; names are resolved by a stand-in; the scale of the facility number in simple configuration files of the remote appender is left open",
      "all priorities from -300 to 1100; 15 facilities; all message lengths around the datagram limit; four addresses; call sequences of log, long log, reopen, close, new and second appender with standard input a file, a socket or closed and a known or unknown relayer; property files with all facilities and option orders; simple files with the optional fields left out and further commands; outcome = datagrams, facility and priority",
      {"quick": "call depth 4, messages up to 2,750 bytes", "thorough": "call depth 5, every message length up to 5,500 bytes"},
      [dict(name="l09", src="l09.cpp", repo="log4cpp", mode="asan", ldflags=["-Wl,--wrap=openlog,--wrap=closelog,--wrap=syslog,--wrap=vsyslog,--wrap=__syslog_chk,--wrap=__vsyslog_chk,--wrap=gethostbyname,--wrap=gethostbyaddr"])])

    C("U02", "bounded-exhaustive exploration of timer programs on a clock that the harness moves, of sleep arguments under every interruption pattern of a bounded set, and of exceptions, against a reference", "fault_enumeration",
      "complete over the stated programs, arguments and interruption patterns; clock and sleeping are stand-ins",
      "all programs of nested and overlapping measured blocks of two timers with three ways of logging; 10 x 12 sleep times x 16 interruption patterns; exceptions over messages, files, lines, log levels and ways of catching; outcome = runs and times, requests made",
      {"quick": "timer programs of up to 4 steps", "thorough": "up to 6 steps"},
      [dict(name="u02", src="u02.cpp", ldflags=["-Wl,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep"])])
