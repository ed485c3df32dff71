MPI_NOTE = " All ranks run the real code as tasks in one process; a seeded scheduler decides which rank proceeds at every communication step, whether sends are buffered, and who leaves a collective early. Assumes reliable communication, as MPI does, and small maps."
MPI_TECH = "deterministic simulation: seeded search over communication schedules of simulated ranks against a reference model"
prop("C06", "Distributed tiled maps conserve every tile's total on every schedule",
	"Whatever tiles each task holds (any order, overlapping, none), redistributing a tiled map gives every tile of the result the sum of that tile over all tasks, reducing gives the root the full map and nothing to the others, and writing produces a file with that full map. Building, extending, copying, adding and subtracting tiled maps act as if they were the dense map with unowned tiles empty. All tasks finish, on every communication schedule.",
	["schedules","inputs","histories"], "all numbers of tasks, tile ownership patterns, tilings that do not divide the map, histories of map operations, and all interleavings and buffering of the communication",
	"The tests use one process; the mistakes appear only for particular ownership patterns, task counts and message orders.",
	["pixell/tilemap.py","pixell/utils.py"], [("ownership exchange and all-to-all of tile data","pixell/tilemap.py redistribute, reduce, write_map"),("tile lookup and tile-wise arithmetic","pixell/tilemap.py TileMap, TileGeometry")], "c06", note="Search over communication schedules, ownership and histories against a dense model."+MPI_NOTE, technique=MPI_TECH)
prop("C07", "Array communication helpers deliver exactly the defined arrays to every task",
	"Element-wise reductions, gathering of equal and of variable-length arrays along an axis, sending and receiving arrays of any kind, and redistributing slices of a distributed array give each task exactly the defined result, for every number of tasks, dtype, shape (also empty) and memory order, on every communication schedule, and all tasks finish. The stand-in communicator used without MPI behaves like a job with one task.",
	["schedules","inputs","configurations"], "all numbers of tasks, array shapes, dtypes, memory orders, axes, message patterns and slice partitions (several per task, steps, flips, wrapping), and all interleavings and buffering of the communication",
	"No test runs more than one task, and MPI is not even installed where they run.",
	["pixell/utils.py","pixell/mpiutils.py"], [("variable-length gather and typed send/receive","pixell/utils.py allgatherv, send, recv"),("slice box algebra","pixell/utils.py redistribute, sbox_intersect"),("stand-in communicator","pixell/mpiutils.py")], "c07", note="Search over communication schedules and array programs against a reference."+MPI_NOTE, technique=MPI_TECH)
DISK_NOTE = " The real code, astropy, h5py and libhdf5 run on a simulated disk (interposed libc file calls) that counts, journals and fails calls as the seed decides. Crashes are process crashes: data handed to the operating system survives, in call order; power loss that reorders writes is outside the model. Small maps."
DISK_TECH = "deterministic simulation: seeded search over file histories, disk faults and crash points against a reference model"
prop("C08", "Written maps read back identically; failed or interrupted writes never lie",
	"A map written to fits (plain or gzipped) or hdf, also into a group of an hdf file that keeps its other content, reads back with identical pixels, dtype, shape, pixel-to-sky mapping and extra header entries, whatever its dtype, byte order, memory layout or projection; its geometry and dtype can be read separately and agree, and writing does not modify the map. If the disk fails or is full, the write raises instead of reporting success. After a failed or crashed write, reading raises or gives the complete old or complete new map of some finished write, never a mixture or truncated data, and a later successful write works.",
	["inputs","crash_points","fault_sequences","histories"], "all map contents, layouts and formats, all histories of writes and reads of a set of files, all disk fault positions, all process crash points (between or inside file calls)",
	"Tests write one or two maps to a healthy disk; they cannot place a full disk, an error or a crash at every file call.",
	["pixell/enmap.py","pixell/wcsutils.py"], [("fits and hdf writers and readers","pixell/enmap.py write_map, write_fits, write_hdf, read_map, read_fits, read_hdf"),("separate header readers","pixell/enmap.py read_map_geometry, read_map_dtype, write_map_geometry")], "c08", note="Search over histories, fault positions and crash points against a model of the files. A crash while adding to an existing hdf file is not claimed, since libhdf5 gives no such guarantee."+DISK_NOTE, technique=DISK_TECH)
prop("C09", "Reading part of a map gives what the full map has there, however it is read",
	"Reading a slice, a pixel box, a coordinate box or a target geometry from a map file, in one go or by repeated access to a delayed map, gives in every pixel the value the full map has at that position on the sky, zero outside it, across the wrapping edge of the sky and for boxes running against the map axes, with coordinates to match. It does not matter which file format or section-reading path is used, what was read before, or whether an earlier read failed. Accesses do not modify the file, the caller's arguments or other results, and what the caller does with a result does not affect later accesses.",
	["inputs","histories","fault_sequences"], "all map geometries, file formats, slices (strides, reversals), pixel boxes in and outside the map, coordinate boxes and rounding modes, target geometries, and all access histories with read errors and short reads",
	"The input space of slices, boxes, wrapping and access histories is unbounded and the section-reading paths only switch on for large files, which tests avoid.",
	["pixell/enmap.py","pixell/utils.py"], [("delayed map objects and section reading","pixell/enmap.py read_map, ndmap_proxy, read_helper"),("box extraction with wrapping","pixell/enmap.py submap, extract_pixbox, pixell/utils.py sbox_wrap")], "c09", note="Search over access histories and read faults against a model with the full map in memory."+DISK_NOTE, technique=DISK_TECH)
prop("C10", "Catalogues, bunches, multimaps and spectra survive their files; faults are loud",
	"Nested bunches written to hdf, sauron catalogues (fits and text), lists of maps written as one multimap fits file, and power spectra written as text read back equal (to the printed digits in the text formats) for every size down to a single row without changing the caller's object, and catalogues in the dory, nemo and simple formats read with the documented columns and units. If the disk fails or is full the write raises, and a read error raises and never gives wrong values. After a failed or crashed write, reading a fits file raises or gives a complete old or new value, every bunch entry that can be read is right, and a later write works again.",
	["inputs","crash_points","fault_sequences","histories"], "all values of the supported kinds, all histories of writes and reads, all disk fault positions, all process crash points (between or inside file calls)",
	"Tests hardly cover these readers and writers, and cannot place disk errors or crashes.",
	["pixell/bunch.py","pixell/pointsrcs.py","pixell/multimap.py","pixell/powspec.py"], [("bunch files","pixell/bunch.py read_hdf, write_hdf"),("catalogue formats","pixell/pointsrcs.py read_sauron, write_sauron, read_dory_fits, read_dory_txt, read_nemo, read_simple"),("multimap files","pixell/multimap.py read_map, write_map"),("spectrum files","pixell/powspec.py read_spectrum, write_spectrum")], "c10", note="Search over histories, fault positions and crash points against a model of the files. A cut text file cannot be told from a short one, so reading one is not claimed."+DISK_NOTE, technique=DISK_TECH)
prop("C11", "A checkpointed solve resumes exactly as if it had never been interrupted",
	"A conjugate-gradient solve saved at any iteration and restored into a solver made from the same problem, in the same or a new process and with other solves in between or nested inside, goes through exactly the same states as an uninterrupted solve, with vectors of the same kind (array, map, tiled map) and precision. Whatever fails or crashes during a save, the file holds the complete previous or complete new checkpoint; a save or load that fails raises, and the solver is left as it was. With the vector spread over several ranks and a reducing dot product all ranks agree on the error and the number of steps, the solution (also of the minimum-residual solver) is that of the system, and the caller's right-hand side and starting guess are not changed unless asked for.",
	["inputs","schedules","crash_points","fault_sequences","histories"], "all positive definite systems of moderate condition, vector kinds, preconditioners and dot products; all histories of iterating, saving, crashing, restoring; all disk fault positions and process crash points; all rank schedules",
	"No test saves or restores a solver, and none can crash one inside a save.",
	["pixell/utils.py"], [("solver state and checkpoint","pixell/utils.py CG.__init__, CG.step, CG.save, CG.load"),("minimum residual solver","pixell/utils.py Minres")], "c11", note="Search over histories, fault positions, crash points and rank schedules; the oracle is the uninterrupted solve, which is itself compared with a direct solution."+DISK_NOTE, technique=DISK_TECH)
prop("C12", "Pool memory is disjoint, aligned and stable until reset, and reused after it",
	"Arrays obtained from a device's named memory pools (copies of data, empty, filled, raw bytes) have the requested shape, dtype and contents, are aligned as asked, and between two resets of their pool never overlap with each other, with their source or with arrays from other pools, so that writing one never changes another. Resetting, freeing or running out of memory in one pool does not disturb arrays of other pools, and a request that runs out of memory raises and leaves the pool usable. After a reset a pool serves any set of requests it has served before without asking the system for more memory, and the reported sizes cover what is in use and drop to zero when freed.",
	["inputs","histories","fault_sequences"], "all sequences of requests, resets and frees on any number of pools, dtypes, shapes and alignments, and all positions where memory runs out",
	"Nothing in the tests touches the pools; overlap shows only for particular sequences of sizes, resets and failures.",
	["pixell/device.py"], [("pool bookkeeping","pixell/device.py Mempool.alloc, Mempool.reset"),("array creation","pixell/device.py ArrayPoolCpu, ArrayMultipool, AllocAligned")], "c12", note="Search over request histories and out-of-memory positions, with a model of the live arrays; the memory provider is simulated through the existing allocator argument. The gpu classes are not run.", technique="Deterministic simulation: seeded histories of pool requests against a simulated memory provider that fails at seeded points and places blocks adversarially; a model of the live arrays is checked after every step.")
prop("C13", "Results depend only on arguments, not on earlier or concurrent calls",
	"Map geometry, map manipulation, fft, harmonic transform, lensing, aberration, coordinate, interpolation, point source, wavelet, tiled and multi-map, spectrum and array utility functions give the same result for the same arguments whatever was called before in the process (including calls that raised or were interrupted), whatever other threads call meanwhile, and whatever the caller later does to results it got; so do transforms, interpolators and solver-free helper objects that are used repeatedly. They do not modify the arrays, maps and geometries they are given, except those they are documented to work on in place.",
	["histories","schedules","inputs","fault_sequences"], "all histories of calls with arguments that may differ in a single parameter, all interleavings of two or three threads at line granularity, all points where a call may be interrupted or run out of memory, any garbage in fresh memory",
	"Tests make each call once or twice in a fixed order; a stale cache entry, an overwritten input or a half-updated module variable shows only for particular histories.",
	["pixell/enmap.py","pixell/utils.py","pixell/curvedsky.py","pixell/fft.py","pixell/lensing.py","pixell/aberration.py","pixell/coordinates.py","pixell/reproject.py","pixell/uharm.py","pixell/wavelets.py","pixell/pointsrcs.py","pixell/multimap.py","pixell/tilemap.py"], [("module level and per-object caches","pixell/utils.py tsz_profile_los, pixell/uharm.py UHT, pixell/wavelets.py WaveletTransform, pixell/aberration.py Aberrator, Modulator"),("copying before in-place work","pixell/curvedsky.py, pixell/fft.py, pixell/enmap.py")], "c13", note="Search over call histories, thread interleavings and interruptions; the oracle is the same call made alone in a fresh copy of the process. It does not say that the lone result is right. Switches happen between lines of Python, not inside compiled code; about 235 kinds of calls with a few values for each parameter, small inputs.", technique="deterministic simulation: seeded search over call histories, thread switches at line granularity and injected interruptions, compared with the same call alone in a pristine process")

prop("C14", "A random realisation is fixed by its seed and has the requested covariance",
	"Maps and harmonic coefficients drawn with a given seed (zero included) are the same however often they are drawn and whatever was drawn, reseeded or interrupted before in the process, other seeds give other realisations, and unseeded draws follow numpy's global generator and differ from draw to draw. Scalar coefficients drawn with one seed up to different multipole limits agree on the common multipoles, and with separate seeds for lensing field and background each of two uncorrelated fields depends on its own seed only. The realisation is linear in the normal deviates and its covariance is exactly the requested spectrum, also between components, with real coefficients for m=0.",
	["histories","inputs","fault_sequences"], "all histories of seeded and unseeded draws, other users of the random stream and failures inside the source; all spectra, component counts, multipole limits, coefficient layouts, precisions and small geometries",
	"Tests draw a few realisations and look at them once; whether a seed is honoured depends on the history, and a sampled covariance cannot reveal a small or single-coefficient error.",
	["pixell/curvedsky.py","pixell/enmap.py","pixell/lensing.py"], [("seeding and filling","pixell/curvedsky.py rand_alm, rand_alm_white, fill_gauss, rand_alm_healpy, rand_map"),("flat-sky realisations","pixell/enmap.py rand_map, rand_gauss, rand_gauss_harm, rand_gauss_iso_harm"),("separate seeds","pixell/lensing.py rand_alm, rand_map")], "c14", note="Search over histories of draws against the same draw alone in a fresh process; exact covariance from replacing the random source by unit vectors, for small sizes. Polarised flat maps and one-dimensional non-flat spectra are only checked for repeatability, not covariance. Multi-component coefficients are not claimed to agree between multipole limits.", technique="deterministic simulation: the random source behind numpy.random is a seam; seeded histories of draws, foreign use and failures, and exact covariances from controlled deviates")

prop("C15", "Processing a map in padded tiles, split over tasks, equals processing it at once",
	"Looping over a map in padded tiles visits every tile exactly once over any split of the tiles among tasks, and shows in each tile the map's values (zero outside the map, wrapping around the sky) with matching coordinates. Tiles written back cross-fade, so that any pixel-local operation, summed over tasks, reproduces that operation on the whole map; what is written in the margins or into input tiles is ignored, input maps are not modified, and abandoned or interleaved loops do no harm. A healpix inverse-variance map resampled in blocks by several tasks equals the nearest-pixel definition, on every communication schedule.",
	["schedules","inputs","histories"], "all map shapes, geometries, tilings, paddings and margins, all numbers of tasks and shares of the tiles, all orders of advancing and abandoning loops, all communication schedules",
	"No test uses the tile loop with more than one task; the mistakes show at particular edges, wraps and shares only.",
	["pixell/enmap.py","pixell/reproject.py"], [("tile iteration, cross-fading and wrapping","pixell/enmap.py padtiles, Padtiler"),("work shared by row blocks","pixell/reproject.py ivar_hp_to_cyl")], "c15", note="Search over tilings, shares, loop histories and communication schedules against direct indexing of the whole map. Assumes the documented limits: padding at most half a tile, and tiles that divide maps going around the sky."+MPI_NOTE, technique=MPI_TECH)

prop("C16", "Every field of every map is plotted once, named right, in the colours it defines",
	"Plotting any mix of maps and map files, split over any number of tasks, gives exactly one plot (or set of layers) for each field (or rgb triplet, or tiled mosaic) of each map, in order, with the documented file name, and each plot is the same as if its map had been plotted alone. Each image pixel has the colour that the requested slicing, cut-out, stamps, resampling, operation, mask, colour range and colour scheme define, with right ascension increasing to the left and declination upwards, and contours lie where the map crosses the requested levels. The input maps are not changed, abandoned and interleaved plot loops do no harm, and an error while reading a map or writing a plot raises instead of giving a wrong image.",
	["inputs","histories","fault_sequences","configurations"], "all sets of maps, field layouts, projections and axis directions, option combinations given as keywords or command line, shares of the work among tasks, orders of advancing and abandoning the plot iterators, and disk faults",
	"The tests make one plot and only look whether it succeeds.",
	["pixell/enplot.py","pixell/colorize.py","pixell/wcsutils.py"], [("work sharing, naming and cached layers","pixell/enplot.py plot_iterator, draw_map_field, get_cache"),("map preparation and colouring","pixell/enplot.py get_map, get_color_range, map_to_color, hwexpand, hwstack, calc_contours, draw_contours"),("output","pixell/enplot.py write")], "c16", note="Search over option combinations, interleavings of plot iterators and disk faults against a pixel-by-pixel model. Grid lines, labels, annotations and colour bars are only compared with the same map plotted alone; the matplotlib driver and on-screen display are not covered."+DISK_NOTE, technique="deterministic simulation: seeded search over interleaved plot iterators of several tasks, option combinations and disk faults, against a pixel-by-pixel model")

# Not applicable: pure functions of their arguments, with no schedule, clock, I/O, other party or
# history for a result to depend on (their dependence on history is C13)
def na(id, title, statement, text, files, mech, reason):
	prop(id, title, statement, ["inputs","configurations"], text, "The tests compare a few geometries and inputs with stored results.", files, mech, na=reason)
PURE = " Pure function of its arguments: there is no schedule, clock, I/O, fault or other party to simulate, so a seeded scheduler has nothing to decide. Only its independence of history and threads is simulated, as part of C13."
na("C17", "Pixel and sky coordinates convert back and forth and agree with the map's header",
	"For every map geometry, converting pixel to sky coordinates follows the world coordinate system in its header, converting back gives the pixel again, and boxes, areas, pixel sizes and extents agree with the pixel positions. Slicing, downgrading, padding and cropping a map keep every remaining pixel's position on the sky.",
	"all projections, resolutions, orientations and map shapes", ["pixell/enmap.py","pixell/wcsutils.py"], [("coordinate conversion","pixell/enmap.py pix2sky, sky2pix, pixmap, posmap"),("geometry construction","pixell/enmap.py geometry, geometry2, fullsky_geometry, wcsutils.py")],
	"Accuracy of coordinate conversion."+PURE)
na("C18", "Fourier and harmonic transforms invert each other and are each other's adjoints",
	"Fourier transforms of maps, and spherical harmonic transforms of any supported pixelisation and spin, give the defined sums, are undone by their inverses on band-limited input, and agree with their adjoints in inner products.",
	"all shapes, axes, precisions, spins, layouts and pixelisations", ["pixell/fft.py","pixell/curvedsky.py","pixell/uharm.py"], [("transforms","pixell/fft.py, pixell/curvedsky.py alm2map, map2alm")],
	"Numerical accuracy of transforms done by external libraries (ducc0)."+PURE)
na("C19", "Lensing, aberration and coordinate rotation move fields to where they belong",
	"Lensed, aberrated or rotated maps have at each position the value of the original at the displaced position, with polarisation rotated by the local change of axes, to the accuracy of the interpolation. Transforming forth and back is the identity to that accuracy.",
	"all fields, displacements, velocities, coordinate systems and geometries", ["pixell/lensing.py","pixell/aberration.py","pixell/coordinates.py","pixell/reproject.py"], [("displacement and parallel transport","pixell/lensing.py, pixell/aberration.py, pixell/coordinates.py")],
	"Accuracy of a physical model."+PURE)
na("C20", "Wavelet analysis and synthesis lose nothing",
	"For every wavelet basis and geometry, transforming a map to wavelet coefficients and back returns the band-limited part of the map, and the adjoint operations agree in inner products.",
	"all bases, band limits and geometries, flat and curved", ["pixell/wavelets.py","pixell/uharm.py"], [("transform","pixell/wavelets.py")],
	"Numerical identity of a linear transform."+PURE)
na("C21", "Matched filtering finds and measures sources without bias",
	"Sources put into a map are recovered at their positions with their amplitudes within the reported uncertainty, for every beam, noise model and spacing the finder supports.",
	"all catalogues, beams, noise models and geometries", ["pixell/analysis.py"], [("filter and measurement","pixell/analysis.py")],
	"A statistical statement about estimators."+PURE)
