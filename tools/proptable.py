"""The single table properties.jsonl and MANIFEST.json are generated from."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", note="", claim=True,
         reason=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, technique=technique, note=note, claim=claim,
                  reason=reason))


prop("C01", "A patch is always consistent with itself",
     "After any sequence of public patch operations the published shape, ndim, size, dimension names, coordinate shapes and the "
     "coordinate summaries in the attributes (min, max, step, units) agree with the actual data array and coordinate values. "
     "Every dimension has a one dimensional coordinate of that name and length, and claims made by a coordinate (sorted, reverse "
     "sorted, evenly sampled, min, max, step, length) are true of its values.",
     ["programs", "inputs"], "all finite sequences of patch operations on all patches",
     "Unit tests look at one operation on a handful of example patches (sorted float/datetime dims); they do not run the closure of "
     "operation sequences, nor reverse, unsorted, length-0/1 and multi-dimensional associated coordinates.",
     ["dascore/core/patch.py", "dascore/core/coordmanager.py", "dascore/core/coords.py", "dascore/core/attrs.py", "dascore/proc/basic.py", "dascore/proc/coords.py"],
     [{"name": "CoordManager validation and attrs rebuilt from coords", "where": "dascore/core/patch.py Patch.__init__; core/coordmanager.py"}],
     technique="TLA+ invariant Conform on the patch model (PatchMC, TLC exhaustive) and TraceConform verdicts by TLC on every state reached by replayed behaviours and random programs of public operations",
     note="coordinate values compared through order isomorphic ranks; patches <= 4 dims")

prop("C02", "Operations never change existing objects",
     "No public operation, whether it succeeds or raises, changes the observable content (data, coordinates, units, attributes, history, "
     "spool contents) of any patch, coordinate, coordinate manager or spool that existed before it, nor of any array, dictionary or list "
     "the caller passed in. Only explicitly mutating index updates of directory spools are exempt.",
     ["programs", "histories"], "all finite operation sequences over a growing population of objects, including failing operations",
     "Aliasing shows only when an older object is looked at again after a later operation; tests look at the newest result.",
     ["dascore/core/patch.py", "dascore/core/coords.py", "dascore/core/coordmanager.py", "dascore/core/spool.py", "dascore/proc"],
     [{"name": "frozen models, copy on write", "where": "dascore/core/*.py"}],
     technique="TLA+ heap model of shared buffers (Heap.tla, TLC exhaustive: Immutable, Stable) and TraceHeap verdicts on digests of a growing population of live objects after every operation",
     note="content digests of patches, coords, managers, attrs, spools and caller arguments; bounded programs")

prop("C03", "Patch.select keeps exactly the requested samples",
     "For every patch, coordinate and query (inclusive value range in either order, open ends, relative offsets from start/end, sample "
     "range/index, value array, boolean mask, sample index array; one or several coordinates at once) select returns exactly the "
     "samples whose coordinate value satisfies the query, in their original order, with data and every associated coordinate cut identically.",
     ["inputs", "programs"], "all patches, coordinates and queries, also on results of earlier operations",
     "Tests sample a few ranges on sorted coordinates; off-by-one, boundary, reversed, unsorted, duplicate and non-dimensional cases are unbounded.",
     ["dascore/proc/coords.py", "dascore/core/coordmanager.py", "dascore/core/coords.py"],
     [{"name": "coordinate select returns an indexer applied to data and all associated coords", "where": "core/coordmanager.py select; core/coords.py select"}],
     technique="TLA+ spec of patch state and select (spec/Patch.tla), TLC exhaustive on small constants, TLC-generated behaviours replayed and recorded traces judged by TLC (TracePatch)",
     note="query semantics checked against brute-force definitions on bounded patches (<=4 dims, ~200 samples), grid values")

prop("C04", "Structural operations keep every sample with its labels",
     "Transpose, sort, snap, flip, squeeze, append dims, rename, set_dims, drop/update coords, order, decimate, roll, pad, dropna and "
     "select, in any sequence, move samples and coordinate labels together: each surviving sample keeps the values of all coordinates "
     "attached to its position, no sample is invented, lost or duplicated beyond what the operation states, and padding labels/values are as documented.",
     ["programs", "inputs"], "all finite sequences of structural operations on all patches",
     "Tests apply single operations to example patches and mostly check shapes or one coordinate.",
     ["dascore/proc/basic.py", "dascore/proc/coords.py", "dascore/core/coordmanager.py", "dascore/core/coords.py"],
     [{"name": "joint indexing of data and coord manager", "where": "proc/coords.py, core/coordmanager.py"}],
     technique="TLA+ spec of structural operations on uniquely labelled samples (spec/Patch.tla, invariant LabelsKept), TLC exhaustive + behaviour replay + trace verdicts",
     note="bounded patches; order of equal sort keys unspecified")

COORD_TECH = ("TLA+ spec of coordinates as label sequences (Coord.tla); CoordMC relates the implicit start/stop/step representation to explicit sequences (TLC exhaustive: "
              "Represents, SelectAgrees, NextAgrees, Tight, CountAgrees); emitted behaviours and seeded random programs run on integer, float, tiny- and huge-valued float, datetime and "
              "timedelta coordinates in both representations, recorded traces judged by TLC (TraceCoord)")
COORD_NOTE = "one dimensional coordinates of <= 11 labels; floats compared to a thousandth of a step"

prop("C05", "Coordinates keep their labels and units through indexing",
     "For every coordinate (evenly sampled, sorted, reverse sorted, unsorted; int, float, datetime, timedelta; any magnitude and step) selecting by value range, value array, sample range or "
     "index, slicing, sorting and ordering return a coordinate and an indexer which agree: the returned labels are exactly the labels the indexer picks from the old ones, are the ones the query "
     "asked for, and keep units, dtype and (where stated) even sampling; building a coordinate from values never alters them, and an evenly sampled coordinate and an array with the same labels answer alike.",
     ["inputs", "programs"], "all coordinates and all sequences of indexing operations on them",
     "Even and array representations use different arithmetic; boundaries, rounding at large magnitudes and negative steps are unbounded.",
     ["dascore/core/coords.py", "dascore/utils/misc.py", "dascore/utils/time.py"],
     [{"name": "CoordRange / CoordMonotonicArray / CoordArray / CoordPartial", "where": "dascore/core/coords.py"}],
     technique=COORD_TECH, note=COORD_NOTE)

prop("C06", "Coordinate arithmetic agrees with the labels",
     "update_limits, update/change_length, snap, get_next_index, get_sample_count, align_to, approximate equality and published min/max/step/length/span agree with the explicit sequence of labels a "
     "coordinate stands for: limits move or stretch all labels as documented, counts and indices are those obtained by counting labels, alignment returns the common labels with indexers for both sides, "
     "for every representation and after any earlier operation.",
     ["inputs", "programs"], "all coordinates and sequences of updates and index computations",
     "Closed form arithmetic on start/stop/step differs from counting labels only for particular steps, signs and magnitudes.",
     ["dascore/core/coords.py", "dascore/utils/misc.py", "dascore/utils/time.py"],
     [{"name": "start/stop/step arithmetic of CoordRange", "where": "dascore/core/coords.py"}],
     technique=COORD_TECH, note=COORD_NOTE)

SPOOL_NOTE = "sources <= 6 blocks x <= 6 slices on an exactly representable grid; see ASSUMPTIONS in the evidence"
SPOOL_TECH = ("TLA+ spec of spools as sequences of uniquely identified slices (Spool.tla); SpoolMC exhaustive with TLC (Tiling, Disjoint, "
              "MergeAgain, NoInvention ...); simulated behaviours and seeded random histories replayed through the public API, recorded "
              "traces judged by TLC (TraceSpool)")

prop("C07", "Chunking tiles the data exactly",
     "spool.chunk(dim=length, overlap, keep_partial) yields, per group of compatible contiguous patches, exactly the segments [start + k*(length-overlap), "
     "+length): every source sample inside a segment is in it once, in coordinate order with its own label, no sample is invented, lost between segments, "
     "duplicated beyond the overlap or mixed over incompatible groups; only incomplete trailing segments may be dropped, and only without keep_partial; "
     "invalid lengths/overlaps and conflicting attributes raise.",
     ["inputs", "histories"], "all sources (contiguous, gapped, overlapping, unordered, offset, reverse), lengths, overlaps, tolerances, after any earlier spool operation",
     "Tests chunk a couple of regular example spools and compare lengths; edge samples, offset grids and multi-group spools are not covered.",
     ["dascore/utils/chunk.py", "dascore/core/spool.py", "dascore/utils/patch.py", "dascore/utils/gaps.py"],
     [{"name": "ChunkManager computes instructions, spool applies them lazily", "where": "dascore/utils/chunk.py; core/spool.py DataFrameSpool"}],
     technique=SPOOL_TECH, note=SPOOL_NOTE)

prop("C08", "Merging patches loses and invents nothing",
     "Merging (chunk with None) joins per group all patches without a gap larger than the tolerance: the result holds, in coordinate order, for each label exactly "
     "one sample taken from a source with that label, associated coordinates and the other dimension stay with their samples, overlapping data appears once, gaps "
     "beyond the tolerance separate patches, and attribute conflicts are handled as requested (raise, drop, keep_first).",
     ["inputs", "histories"], "all sets of patches and merge parameters",
     "Merging depends on pairwise relations (contained, touching, gap just above tolerance) of arbitrarily many patches.",
     ["dascore/utils/patch.py", "dascore/utils/chunk.py", "dascore/utils/gaps.py", "dascore/core/coordmanager.py", "dascore/core/spool.py"],
     [{"name": "_force_patch_merge / merge_patches / streaming merge", "where": "dascore/utils/patch.py; core/spool.py"}],
     technique=SPOOL_TECH, note=SPOOL_NOTE)

prop("C09", "Contents, length, indexing and iteration of a spool agree",
     "After any sequence of spool operations len(spool), the rows of get_contents, spool[i] for every i (negative too) and iteration describe the same patches in the "
     "same order: row i's extents, step, group and attributes are those of patch i, slices/arrays/masks pick exactly the rows python/numpy indexing would, sort is a "
     "stable-content permutation ordered by its key, out of range indices raise IndexError.",
     ["histories", "programs"], "all finite histories of spool operations",
     "Two parallel tables (contents and instructions) plus lazily loaded patches can drift apart only after several operations.",
     ["dascore/core/spool.py", "dascore/utils/pd.py", "dascore/clients"],
     [{"name": "current/source/instruction dataframes", "where": "dascore/core/spool.py DataFrameSpool"}],
     technique=SPOOL_TECH, note=SPOOL_NOTE)

prop("C10", "Spool.select keeps exactly the matching patches, trimmed exactly",
     "spool.select keeps, in order, exactly the patches whose extent meets the coordinate ranges and whose attributes match the queries (value, collection, unix "
     "pattern), trims each to exactly the samples inside the inclusive range, and touches nothing else; ranges may be reversed or open.",
     ["inputs", "histories"], "all spools, ranges and attribute queries, after any earlier operation",
     "Boundary and repeated selections through contents metadata and lazily applied trims are unbounded.",
     ["dascore/core/spool.py", "dascore/utils/pd.py", "dascore/utils/patch.py"],
     [{"name": "adjust_segments / filter_df and lazily applied select kwargs", "where": "dascore/utils/pd.py; core/spool.py"}],
     technique=SPOOL_TECH, note=SPOOL_NOTE)

prop("C11", "Split and map partition a spool whatever the executor does",
     "spool.split yields non-empty consecutive sub-spools which concatenated are the spool, of the requested size or count; spool.map calls the function exactly once "
     "per patch and returns the results in spool order for every executor (any completion order, threads) and batch size.",
     ["schedules", "histories"], "all spools, sizes, counts, executors and completion orders",
     "Tests map with one executor and order; order and once-only calling must hold for any scheduling.",
     ["dascore/core/spool.py", "dascore/utils/mapping.py", "dascore/utils/misc.py"],
     [{"name": "_spool_map and BaseSpool.split", "where": "dascore/core/spool.py; utils/mapping.py"}],
     technique=SPOOL_TECH, note=SPOOL_NOTE)

prop("C12", "Memory, file and directory spools of the same patches behave the same",
     "The same patches offered as a list, one file, or a directory tree of files (one or several patches each, fresh or reopened index) give, up to order, the same "
     "patches before and after the same select, chunk, merge, sort, slice and index operations, and the same operations fail.",
     ["histories", "configurations"], "all sets of patches, layouts over files and operation histories",
     "Each backend is tested on its own examples; equivalence over histories and layouts is never compared.",
     ["dascore/core/spool.py", "dascore/clients/dirspool.py", "dascore/clients/filespool.py", "dascore/io/indexer.py", "dascore/io/dasdae"],
     [{"name": "three implementations of _load_patch over one DataFrameSpool", "where": "dascore/core/spool.py; clients/*.py"}],
     technique=SPOOL_TECH, note=SPOOL_NOTE + "; patches a file index cannot tell apart (same extent and attributes) are excluded")

prop("C13", "A directory index reflects the files after every update",
     "After any history of files appearing or being replaced, updates by one or several spools sharing the index, updates interrupted anywhere by an exception, files "
     "written during an update, reopening and rebuilding, a completed update leaves a spool whose contents are exactly the patches of the readable files: none missing, "
     "none duplicated, none stale, each row loading its own patch; unreadable files are skipped, and a reopened spool shows what the last update indexed.",
     ["histories", "crash_points", "schedules"], "all histories of file writes, updates and interruptions at any point",
     "Tests create an index once and update it once; staleness depends on the order of writes, modification times, several handles and where an update stopped.",
     ["dascore/clients/dirspool.py", "dascore/io/indexer.py", "dascore/utils/hdf5.py", "dascore/io/core.py"],
     [{"name": "HDFPatchIndexManager with last-updated time stamp", "where": "dascore/utils/hdf5.py; dascore/io/indexer.py"}],
     technique="TLA+ model of the update protocol (DirIndexMC: scan/drop/append/stamp steps, concurrent writes, crashes; TLC exhaustive Fresh, Once, NoGhosts); its simulated behaviours and random histories executed on real directories, traces judged by TLC (TraceDir)",
     note="<= 10 files, <= 3 patches per file; atomic replacement of files with current modification time; hard kills inside an HDF5 write not modelled")

prop("C14", "What is written to a file comes back unchanged",
     "For every patch and any history of writes and appends to a file (one patch or several, patches sharing names or extents, with or without an index, copies of files "
     "through spools, writes which fail), reading, scanning and spooling the file give back every patch written and nothing else: same data and dtype, dimensions, coordinates "
     "(values, dtype, units, association), attributes and history; scans agree with the patches; a read with a query gives exactly the samples inside it. A later write "
     "may only replace a patch with the same attributes and extent, and a failed write changes nothing stored before.",
     ["inputs", "histories"], "all patches and all histories of writes to a file",
     "Tests round trip a few example patches once; names clash, strides, odd attributes, repeated and failing writes only matter in combination.",
     ["dascore/io/dasdae", "dascore/io/pickle/core.py", "dascore/io/core.py", "dascore/utils/hdf5.py", "dascore/clients/filespool.py"],
     [{"name": "one HDF5 group per patch, named after its attributes, with an optional index", "where": "dascore/io/dasdae/core.py; dascore/io/dasdae/utils.py"}],
     technique="TLA+ file model (FileIO.tla: stored records, supersession, partial reads through Spool.tla) with its naming mechanism checked exhaustively by TLC (FileIOMC: NothingLost, NothingInvented, IndexComplete); recorded write/read/scan/query histories judged by TLC (TraceFile)",
     note="DASDAE and PICKLE (the formats which can be both written and read offline); field digests of whole patches; floats to nine digits")

prop("C15", "The format of a file is decided by its content alone",
     "Detection, reading, scanning and spooling of a path depend only on the content of the file and the formats registered at that moment: not on its extension, the "
     "spelling of the path, hints left by files seen before, or the order in which formats were registered. Files of no registered format give UnknownFiberFormatError, missing ones "
     "FileNotFoundError; a format or version hint that does not fit is refused; scanning a list or directory gives exactly the patches of its readable members, skipping "
     "corrupt and foreign files, and directories which are one data set are read as one; writing uses the latest version unless one is named.",
     ["inputs", "histories", "configurations"], "all sets of registered formats, files, extensions, hints and orders of calls",
     "Tests detect a fixed set of files with all formats registered from the start; caches, priorities and misbehaving formats depend on history.",
     ["dascore/io/core.py", "dascore/utils/io.py", "dascore/utils/misc.py"],
     [{"name": "_FiberIOManager: prioritised candidates, extension lists, caches, hints", "where": "dascore/io/core.py"}],
     technique="TLA+ dispatch specification (Dispatch.tla) and model of candidate order, hints and caches (DispatchMC, TLC exhaustive: Right); random histories over synthetic and real formats in forked processes judged by TLC (TraceDispatch)",
     note="formats claim disjoint files; versions of one digit; synthetic formats plus DASDAE and PICKLE")

prop("C16", "Files are closed after every operation",
     "When any read, write, scan, format detection, index or spool operation on paths returns or raises, every file it opened is closed; a file or handle opened by the caller is left open.",
     ["inputs", "histories", "crash_points"], "all operations of all registered formats on all files, succeeding or failing anywhere",
     "Leaks show only on failing paths (foreign, truncated or unwritable files) which tests visit with pytest.raises and never look at descriptors.",
     ["dascore/utils/io.py", "dascore/io/core.py", "dascore/utils/hdf5.py", "dascore/io/indexer.py", "dascore/io"],
     [{"name": "IOResourceManager and the type caster close what they opened", "where": "dascore/utils/io.py; dascore/io/core.py _type_caster"}],
     technique="TLA+ model of nested resource scopes (ResourceMC, TLC exhaustive: NoLeak, UserKept, OnePerType); descriptors of the process recorded after every call and judged by TLC (TraceResource)",
     note="every registered FiberIO called directly on eight kinds of files; only descriptors below the scratch directory")

prop("C17", "History and attributes follow the operations applied",
     "Each processing operation appends exactly one history entry naming the operation and its dimension arguments (composite operations "
     "may add the helper they are built from) and never drops, reorders or rewrites earlier entries; operations which are not processing "
     "steps (select, order, transpose, set_dims, append_dims, copies, attribute updates) leave the history alone; every attribute the "
     "operation is not about (station, network, tag, ids, category, custom fields, and data_type/data_units outside transforms and unit "
     "operations) is handed on unchanged, and no stale attribute appears.",
     ["programs", "inputs"], "all finite sequences of public patch operations on patches with arbitrary attributes and history",
     "Tests check the history of a few operations applied to a patch with default attributes; loss of attributes shows only when they are set and the particular operation is applied.",
     ["dascore/utils/patch.py", "dascore/core/attrs.py", "dascore/core/patch.py", "dascore/proc", "dascore/transform"],
     [{"name": "patch_function decorator records history; new() conforms attrs", "where": "dascore/utils/patch.py patch_function"}],
     technique="TLA+ provenance model (History.tla, TLC exhaustive: StepsOk, Lineage, Grow); every outermost public call recorded and judged by TLC (TraceHistory) with the histories of all patches seen as state",
     note="classification of operations (recorded, unrecorded, composite, retyping) is part of the specification")

ARITH_TECH = ("TLA+ definitions of the operations through labels (Arith.tla; its laws checked exhaustively by TLC in ArithMC); operands enumerated by the specification and random patches run through "
              "every public spelling of the operation, recorded results judged by TLC (TraceArith)")

prop("C18", "Element-wise operations combine samples with equal labels",
     "Arithmetic, comparison and ufunc operations between two patches, and where() with patches, give a patch whose dimensions are the union of both (the first's order first), whose labels along a "
     "shared dimension are the labels common to both (unchanged when equal; an unlabelled or length one dimension broadcasts), and in which each sample is the function of the two samples having that "
     "label combination, whatever the order, sampling, dimension order or spelling (operator, ufunc, method); operations with arrays and numbers follow numpy broadcasting on the trailing dimensions and never change labels, "
     "and associated coordinates which are kept still belong to their labels.",
     ["inputs"], "all pairs of patches, arrays, numbers and functions",
     "Misalignment only shows with different orders, partial overlaps, transposed dimensions or broadcast dimensions with values that tell samples apart; tests use equal or simple shifted patches.",
     ["dascore/utils/patch.py", "dascore/utils/array.py", "dascore/utils/coordmanager.py", "dascore/proc/basic.py", "dascore/core/patch.py"],
     [{"name": "align_patch_coords, apply_ufunc, apply_array_func", "where": "dascore/utils/patch.py, dascore/utils/array.py"}],
     technique=ARITH_TECH, note="up to 4 dimensions; integer-valued data; 12 functions")

prop("C19", "Reductions act on the named dimensions only",
     "aggregate and its shortcuts, ufunc reduce/accumulate, numpy reductions and rolling windows compute their function over exactly the samples of the named dimensions (or window) and nothing else, for every "
     "order of dimensions, spelling and engine: other dimensions, their labels and related coordinates are unchanged, the reduced dimension has the documented label (or is dropped), "
     "and rolling results sit at the label of their window's last (or central) sample, with NaN where the window is incomplete, also with a step.",
     ["inputs"], "all patches, dimensions, functions, windows, steps and engines",
     "Axis and label mistakes are invisible on square, constant or two dimensional default data, and the two rolling engines are only compared at a few sizes.",
     ["dascore/proc/aggregate.py", "dascore/proc/rolling.py", "dascore/utils/array.py", "dascore/utils/patch.py", "dascore/core/coords.py"],
     [{"name": "aggregate, PatchUFunc.reduce/accumulate, rolling engines", "where": "dascore/proc/aggregate.py, rolling.py, dascore/utils/array.py"}],
     technique=ARITH_TECH, note="up to 3 dimensions; integer-valued data scaled so that means and medians are exact")

prop("C20", "Units: the physical quantity survives every conversion",
     "Converting or simplifying the units of data or coordinates keeps every physical value (number times unit, with offsets) and reaches the requested unit, conversions compose and can be undone, and incompatible "
     "units are refused; setting units changes nothing else. Selecting with quantities keeps exactly the labels inside the physical bounds; arithmetic with quantities and patches, derivatives, integrals and fourier "
     "transforms carry the right unit and the same physical result whatever units the operands are expressed in; filter limits given as frequencies or periods in any compatible unit mean the same band.",
     ["inputs"], "all patches, units, conversion sequences and quantities",
     "A wrong factor, swapped bound or forgotten offset only shows for particular unit pairs (offset units, multiples of units, periods), of which tests sample a few.",
     ["dascore/units.py", "dascore/proc/units.py", "dascore/core/coords.py", "dascore/core/coordmanager.py", "dascore/utils/array.py", "dascore/utils/patch.py", "dascore/transform/integrate.py", "dascore/transform/differentiate.py", "dascore/transform/fourier.py"],
     [{"name": "convert_units, get_factor_and_unit, get_filter_units", "where": "dascore/units.py"}, {"name": "convert_units, simplify_units", "where": "dascore/proc/units.py, dascore/core/coords.py"}],
     technique="TLA+ algebra of units and quantities over exact rationals (Units, UnitsMC) explored with TLC; sequences generated by TLC and seeded random ones run on real patches, results judged by TLC (TraceUnits)",
     note="17 units with exact rational factors; pint itself is trusted")

prop("C21", "Concatenating and stacking keep every sample and its labels",
     "Concatenating patches along an existing or new dimension gives the samples and labels of the compatible patches one after the other in the given order (in groups of the requested number), "
     "stacking gives their element-wise sum with the labels of the first; each only accepts patches whose dimensions and remaining coordinates are equal, others are refused or left out with a "
     "warning as requested, and kept associated coordinates belong to their samples.",
     ["inputs"], "all groups of patches, dimensions and settings",
     "Order, grouping and compatibility are only tested with copies of one example patch, where mixing up samples or accepting an incompatible patch cannot be seen.",
     ["dascore/utils/patch.py", "dascore/core/spool.py", "dascore/utils/misc.py"],
     [{"name": "concatenate_patches, stack_patches, check_dims, check_coords", "where": "dascore/utils/patch.py"}],
     technique=ARITH_TECH, note="groups of up to 4 patches")

prop("C22", "Sampling changes: every value still belongs to its label",
     "Decimating, padding, rolling, interpolating, resampling, differences, derivatives and integrals, correlation and fourier transforms give exactly the labels and samples their definition gives along the "
     "named dimension, for every dimension order, label kind (numbers, times, reversed, uneven) and sample type, whether amounts are given in samples, labels, durations or quantities; other dimensions and coordinates "
     "stay attached to their samples, inputs aren't altered, and transforms come back unchanged through their inverse.",
     ["inputs"], "all patches, dimensions, amounts and sequences of such operations",
     "An off-by-one label, a truncated integer or a weight applied along the wrong dimension only shows for particular lengths, signs, spacings and types; tests use one evenly sampled example patch.",
     ["dascore/proc/resample.py", "dascore/proc/basic.py", "dascore/proc/correlate.py", "dascore/transform/fourier.py", "dascore/transform/differentiate.py", "dascore/transform/integrate.py", "dascore/transform/strain.py", "dascore/core/coords.py"],
     [{"name": "decimate, interpolate, resample", "where": "dascore/proc/resample.py"}, {"name": "pad, roll", "where": "dascore/proc/basic.py"}, {"name": "dft, idft", "where": "dascore/transform/fourier.py"},
      {"name": "differentiate, integrate, velocity_to_strain_rate", "where": "dascore/transform"}, {"name": "correlate", "where": "dascore/proc/correlate.py"}],
     technique="TLA+ definitions of the operations over exact rationals (Sampling) whose laws TLC explores (SamplingMC); sequences generated by TLC and seeded random ones run on real patches, results judged by TLC (TraceSampling)",
     note="patches of up to 6 x 3 samples; fourier coefficients for 1, 2 and 4 samples, other lengths through the inverse; anti-alias filters aren't judged")

prop("C23", "Scaling, tapering, muting, aligning and filling act on exactly the named samples",
     "Normalizing, detrending, tapering (ends or a range), muting (labels or slopes), aligning rows by a coordinate, filling or dropping nulls, median and hampel filters change exactly the samples their definition "
     "names, along the named dimension and for each row on its own, for every dimension order, label kind and way to give amounts (labels, parts, percent, quantities, durations, samples, relative to an end); all "
     "other samples, labels and coordinates stay as they were, nulls stay null, data aren't truncated and an inverse region is exactly the rest.",
     ["inputs"], "all patches, dimensions, amounts, regions and sequences of such operations",
     "A dimension mix-up, a truncated sample, a region off by one or a reversed label only shows for particular orders, types and limits; tests use one example patch with dims in one order.",
     ["dascore/proc/basic.py", "dascore/proc/detrend.py", "dascore/proc/taper.py", "dascore/proc/mute.py", "dascore/proc/align.py", "dascore/proc/filter.py", "dascore/proc/hampel.py", "dascore/core/coords.py"],
     [{"name": "taper, taper_range", "where": "dascore/proc/taper.py"}, {"name": "line_mute, slope_mute", "where": "dascore/proc/mute.py"}, {"name": "align_to_coord", "where": "dascore/proc/align.py"},
      {"name": "normalize, dropna, fillna", "where": "dascore/proc/basic.py"}, {"name": "median_filter, hampel_filter", "where": "dascore/proc/filter.py, hampel.py"}],
     technique="TLA+ definitions of the operations over exact rationals (Shaping) whose laws TLC explores (ShapingMC); sequences generated by TLC and seeded random ones run on real patches, results judged by TLC (TraceShaping)",
     note="patches of up to 6 x 3 samples, triangular windows; l2 norms and smoothed mutes aren't judged")

prop("C24", "Conversions of times are exact",
     "Converting between numbers, strings, datetimes, timedeltas, floats and integers (to_datetime64, to_timedelta64, to_int, to_float, get_max_min_times) keeps the represented instant or duration to the nanosecond, "
     "treats every element of an array or series like the single value, keeps shape, container and index, keeps nulls null, leaves the input unaltered, and a time range that has a limit uses it while a missing one is open.",
     ["inputs"], "all values, dtypes, precisions, shapes and containers, and all chains of conversions",
     "Overflow of small integers, precision other than ns, values at the epoch, 0-d and 2-d arrays or nulls inside of arrays each take another branch; tests sample few of these combinations.",
     ["dascore/utils/time.py"],
     [{"name": "to_datetime64, to_timedelta64, to_int, to_float, get_max_min_times", "where": "dascore/utils/time.py"}],
     technique="TLA+ model of instants and durations as (seconds, nanoseconds) with conversions (Times, TimesMC) explored with TLC; chains generated by TLC and seeded random ones run on the real functions, judged by TLC (TraceTimes)",
     note="within the range of 64 bit nanoseconds")

