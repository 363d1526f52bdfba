"""Writes properties.jsonl.  The text lives here so that it can be edited comfortably."""
import json, os
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": tests, "anchors": a})

G = "simim/map/gridder.py"
prop("P01", "Gridding a catalog conserves and correctly places every object",
 "Gridding a catalog of positions and values puts into each cell, for each requested property, exactly the sum of the values (or, with no values given, the number) of the objects whose position lies inside that cell, whatever the dimensionality, cell shape, catalog size, object order, column order or split into several additions. Objects outside the grid contribute nothing, and the object count reported is the number of objects inside. Adding to selected or newly created properties never changes the others, and the caller's arrays are never modified.",
 ["inputs", "histories"], "every catalog (0..n objects, float or integer positions, in or out of bounds), grid shape and sequence of additions to existing and new properties",
 "Existing tests grid one or two fixed catalogs on cubic grids; property subsets, empty catalogs, integer positions, repeated additions and anisotropic grids are not reached.",
 [G], [("Grid.add_from_cat", G), ("Gridder", G), ("Grid.add_new_prop", G)], ["the grid's values", "the object count"])
prop("P02", "Gridding spectra and axis-aligned arrays is exact however it is evaluated",
 "Adding per-object arrays along one grid axis, or per-object spectra given as a function of the axis coordinate (per-cell or cumulative), deposits for every in-bounds object exactly its value in each cell along that axis, and nothing for objects out of bounds. The result does not depend on whether evaluation is looped, vectorised or split into memory-saving chunks, nor on object order or on which axis is spectral. A cumulative spectrum deposits the exact difference of the cumulative function across the cell.",
 ["inputs", "configurations"], "every set of objects, spectral function family, spectral axis, property selection and evaluation option",
 "Tests use a handful of fixed objects on one layout; chunk boundaries, property selection, empty catalogs and other axes are unexplored.",
 [G], [("Grid.add_from_pos_plus_array", G), ("Grid.add_from_spec_func", G)], ["the grid's values"])
prop("P03", "A grid's geometry stays consistent with its data through any operation history",
 "After any sequence of padding, cropping, rescaling, copying, adding properties and gridding, a grid's shape, number of cells, cell size, side length, centre, cell edges, cell centres and Fourier axes all describe the same lattice. Padding and cropping keep every surviving cell's value attached to its original coordinate and fill new cells with the requested value; rescaling multiplies coordinates by the given factor for exactly the requested axes, about the origin or about the held centre as requested. Copies are independent of their original.",
 ["histories", "inputs"], "every sequence of geometry operations with any axis subset/order, pad width, crop range and scale factor on grids of 1-4 dimensions",
 "Tests apply single operations to all axes at once with one factor; axis subsets, sequences and per-axis arguments are not exercised.",
 [G], [("Grid.pad", G), ("Grid.crop", G), ("Grid.scale_axis", G), ("Grid.copy / copy_axes", G)], ["grid axes, sizes, values"],
 [("axes, axes_centers, fourier_axes, n_pixels, pixel_size, side_length, center_point", "the lattice", G)])
prop("P04", "Sampling a grid returns the value of the cell that contains the point",
 "Sampling a grid at any list of points returns, per requested property and in the requested order, the value of the cell containing each point, and not-a-number for points outside the grid. A point sampled from a freshly gridded catalog therefore finds at least its own contribution. Sampling changes neither the grid nor the caller's positions.",
 ["inputs"], "every grid (1-4 dimensions, non-cubic), point set in or out of bounds, and property selection",
 "Tests sample a few interior points of one grid.",
 [G], [("Grid.sample", G)], ["returned samples"])
prop("P05", "Fourier transforms of a grid are invertible and follow the continuum convention",
 "Transforming any set of axes yields the discrete Fourier transform of the grid with zero frequency centred and values at the frequencies the Fourier axes list (multiplied by the cell volume when normalised), for every parity of cell count. Transforming the same axes again, in any grouping or order of axes, restores the original values, and Parseval's relation holds. Each axis knows which space it is in.",
 ["inputs", "histories"], "every real or complex grid, axis subset and order of transform/back-transform, normalised or not",
 "Tests check one transform and its inverse on one grid; axis subsets, odd sizes and mixed orders are not covered.",
 [G], [("Grid.fourier_transform", G)], ["grid values and axis-space flags"])
prop("P06", "Auto and cross power spectra are the squared and crossed transforms",
 "The power spectrum of a grid equals, mode by mode and per property, the squared modulus of its discrete transform (multiplied by the cell volume when normalised) over the axes requested; a cross spectrum is the real part of one transform times the conjugate of the other and does not change when the grids are exchanged. Auto spectra are real, non-negative and invariant under cyclic translation, and summed over modes obey Parseval's relation. Exactly the transformed axes are marked as Fourier axes, and computing a spectrum not in place leaves the input grids as they were.",
 ["inputs", "configurations"], "every grid or pair of matching grids, axis subset, normalisation and in-place choice",
 "Tests compare one white-noise realisation; cross spectra with several properties, axis subsets and in-place variants are not compared to a definition.",
 [G], [("Grid.power_spectrum", G)], ["returned grid"])
prop("P07", "Spherical averaging bins every cell into exactly one shell and averages it",
 "Averaging a grid in radial shells returns, for each shell, the (weighted) mean, standard deviation and number of exactly those cells whose distance from the chosen centre falls in the shell; all shells are treated alike, including first and last, and empty shells give not-a-number. Counts add up to the number of cells inside the outermost shell. The average of a constant field is that constant.",
 ["inputs", "configurations"], "every grid, axis subset, centre, shell specification (count or edges), weighting and statistic flag",
 "Tests average one field with one shell layout.",
 [G], [("Grid.spherical_average", G)], ["returned axes, averages, counts, deviations"])
prop("P08", "Convolution with a kernel equals direct discrete convolution",
 "Convolving a grid with a kernel grid gives, at every cell, the direct (non-circular, zero-padded, same-size) discrete convolution with the kernel applied per property, for any kernel size, any subset of axes and with or without padding. It is linear in both arguments, and a single-cell unit kernel leaves the grid unchanged. The kernel, and the original grid when not in place, are unchanged.",
 ["inputs", "configurations"], "every grid/kernel pair of compatible dimension, with lower-dimensional kernels and multiple properties",
 "Tests convolve a point source with a symmetric kernel.",
 [G], [("Grid.convolve", G)], ["grid values"])
prop("P09", "Reducing a grid preserves totals and geometry",
 "Collapsing one or more axes gives, per property, the exact sum or (weighted) average over those axes, whatever order the axes are listed in; summing properties gives the exact sum of the selected properties; down-sampling by an integer factor gives the exact average (or sum) of each block of cells, for any subset of axes. The reduced grid's axes describe the remaining or coarsened lattice, and non-in-place reductions and the caller's weights are left untouched.",
 ["inputs", "configurations"], "every grid of 1-4 dimensions, axis subset/order, factor, mode and weight array",
 "Tests collapse one axis of one grid; multi-axis collapses, weights and down-sampling are not settled.",
 [G], [("Grid.collapse_dimension", G), ("Grid.sum_properties", G), ("Grid.down_sample", G)], ["grid values, axes"])
prop("P10", "A saved grid loads back identical",
 "Saving any grid, compressed or not, with or without data, in real or Fourier space, and loading it back gives a grid with identical values, axes, units, counts and flags that behaves identically in later operations. An existing file is replaced only when overwriting is requested.",
 ["inputs", "histories"], "every reachable grid state, save option and follow-up operation",
 "Tests never use a loaded grid for further work.",
 [G], [("Grid.save", G), ("LoadGrid", G)], ["loaded grid attributes and behaviour"])
prop("P11", "Kernels and function grids evaluate their formula at each cell",
 "A point-spread grid has the requested full width at half maximum along every axis, is centred and symmetric, and is normalised to unit sum or unit peak as requested; a spectral point-spread grid has at each spectral cell the width its power law predicts at that cell's spectral coordinate, under the same normalisation channel by channel. A grid built from a function holds the function's value at every cell's centre coordinates. Axes supplied by the caller are reproduced to rounding.",
 ["inputs", "configurations"], "every width, cell size, extent, dimensionality, normalisation, exponent and spectral axis",
 "Tests check one two-dimensional kernel's size and normalisation.",
 [G], [("PSF", G), ("SpectralPSF", G), ("GridFromAxes", G), ("GridFromAxesAndFunction", G)], ["kernel values and axes"])
I = "simim/instrument/instrument.py"
prop("P12", "An instrument map is the response-weighted sky convolved with the beam",
 "The map a detector produces from a field equals the average of the field over the spectral axis weighted by that detector's spectral response at each cell, convolved with that detector's beam at its own width, for each detector's own field property. It is linear in the field, and a flat response with a vanishingly narrow beam returns the plain spectral average. Detectors do not influence each other's maps.",
 ["inputs", "configurations"], "every field cube, set of detectors, spectral response, beam width, kernel option and normalisation",
 "Tests map one or two detectors over one fixed cube.",
 [I, "simim/instrument/spatial_response.py", "simim/instrument/spectral_response.py"],
 [("Instrument.map_fields", I), ("Detector", I)], ["instrument maps"])
prop("P13", "Instrument changes are never silently ignored by later observations",
 "Through any history of adding, deleting and re-adding detectors and fields and changing responses, every map and sample used reflects the current configuration: a stale map is never sampled without an error, and removed detectors or fields disappear from every listing and their maps with them. Adding a field not in place never changes the caller's grid, and operations naming unknown detectors or fields are rejected.",
 ["histories"], "every sequence of detector/field additions, deletions, response changes, mapping and sampling",
 "Tests exercise fixed short sequences.",
 [I], [("Instrument.add_detector / del_detectors / add_field / del_fields", I), ("Instrument.map_fields / sample_fields", I)], ["maps, fields, detectors listings; sampled values"])
prop("P14", "Time-stream samples are the map value plus the documented noise",
 "Sampling fields at pointings returns, per detector and field, the map value at the pointing, plus noise from that detector's noise function when requested: with no noise the sample equals the map, with no signal it equals the noise alone, and both together are their sum. White noise has the requested bias and a standard deviation falling as the inverse square root of the integration time, and is reproducible from its generator.",
 ["inputs", "configurations"], "every pointing list, detector/field subset, noise function and signal/noise switch",
 "Tests sample one pointing pattern.",
 [I, "simim/instrument/noise_functions.py"], [("Instrument.sample_fields", I), ("noise_functions", "simim/instrument/noise_functions.py")], ["returned samples"])
H = "simim/_handlers.py"
prop("P15", "The property store agrees with a dictionary through any history and reopening",
 "Through any history of making, overwriting, loading, unloading, writing, deleting and reopening, every property returned is exactly what was last made or stored for the selected objects in the original row order, the listings name exactly the properties that can be returned, and a failed or unrequested overwrite changes nothing. Properties written to disk survive reopening with values, unit and unit-scaling intact; unwritten ones do not appear.",
 ["histories", "inputs"], "every operation sequence on every stored catalog",
 "Tests call one make/write at a time and never reopen after deletes or overwrites.",
 [H, "simim/siminterface/simhandler.py", "simim/lightcone/lchandler.py"],
 [("Handler.make_property / write_property / delete_property / unload_property / load_property", H)], ["returned properties", "listings", "the file on disk"],
 [("properties_all / properties_loaded / properties_saved / properties_generated", "what exists where", H)])
prop("P16", "Little-h units convert consistently everywhere",
 "Asking for any stored or generated property, selection bound, statistic or gridded coordinate in physical units gives the value in h-scaled units multiplied by the dimensionless Hubble constant to that property's recorded power, and conversely, whichever default the handler was opened with. Box sizes, and how many survey volumes fit in the box, follow the same rule. Selections and statistics made with bounds expressed in either system choose the same objects, and properties computed from others give the same physical result whichever units were in force.",
 ["inputs", "configurations"], "every Hubble constant, property scaling power, handler default and per-call override",
 "Tests run with one cosmology and rarely request the other unit system.",
 [H, "simim/siminterface/simhandler.py"], [("Handler.return_property", H), ("Handler.set_property_range", H), ("Handler.eval_stat", H)], ["returned values, selections"])
prop("P17", "Selections and statistics involve exactly the objects in range",
 "After any sequence of range restrictions and resets, the active objects are exactly those satisfying every restriction in force (bounds inclusive), and every returned property, statistic and newly made property is computed from exactly those objects in their original order, or from all objects when requested. Restrictions on derived properties and on stored properties combine the same way, and resetting restores everything.",
 ["histories", "inputs"], "every sequence of range settings, resets, property generation and statistics",
 "Tests set one range once.",
 [H], [("Handler.set_property_range / reset", H), ("Handler.eval_stat", H)], ["active count, returned arrays"])
R = "simim/siminterface/_rawsiminterface.py"
prop("P18", "Formatting raw catalogs keeps every object's row intact and indexable by mass",
 "Converting raw simulation catalogs produces, per snapshot, every object exactly once, ordered by decreasing mass, with all of an object's fields on the same row and with the declared units and scalings. The stored mass index gives, for any minimum mass, a row count that includes every object at or above it. Re-running without asking for an overwrite, or appending more fields, never reorders, loses or corrupts what is there.",
 ["inputs", "histories"], "every raw catalog (including empty snapshots, ties and unsorted masses), field set and sequence of formatting calls",
 "Tests format one fixed random catalog once.",
 [R], [("SimCatalogs.format", R)], ["formatted files; handlers opened on them"])
S = "simim/siminterface/simhandler.py"
prop("P19", "Redshifts map to exactly one snapshot and snapshots tile cosmic time",
 "For any simulation, any redshift within range maps to the single snapshot whose redshift interval contains it, intervals of adjacent snapshots share their boundary without gap or overlap, boundaries lie at the midpoint in cosmic age, and every snapshot's own redshift maps to itself. The comoving depth covered by a snapshot equals the distance between its bounds, and per-snapshot statistics over a redshift or snapshot selection are returned for exactly the selected snapshots, in their order.",
 ["inputs", "configurations"], "every set of snapshot redshifts, cosmology and queried redshift or snapshot selection",
 "Tests query a few redshifts of the test simulation.",
 [S, R], [("SimHandler.z_to_snap", S), ("Snapshot bounds", R), ("SimHandler.snap_stat", S)], ["snapshot numbers, metadata, statistics"])
prop("P20", "The path registry remembers the latest path for every name",
 "Registering, overriding and querying simulation, light-cone and property locations behaves like a dictionary kept on disk: a query returns the exact path most recently accepted for that name, including paths containing spaces, registering one name never disturbs another, refusing a replacement keeps the old path, and a name not registered is reported as an error.",
 ["histories", "inputs"], "every sequence of registrations and queries with any legal name and path",
 "Tests use one path per kind.",
 ["simim/_paths.py"], [("_SimIMPaths", "simim/_paths.py")], ["returned paths; registry files"])
prop("P21", "Gridding a snapshot or cone places each halo's property in the right units",
 "Gridding snapshot or light-cone properties yields, per property and in the order asked, the sum over exactly the active objects inside the requested limits of their property values in their cells, in the requested unit system, divided by the cell volume or multiplied by the given number when that normalisation is requested. Totals over the grid equal totals over the catalog inside the limits.",
 ["inputs", "configurations"], "every catalog, limit set, resolution, unit system, normalisation and active selection",
 "Tests grid one snapshot at one resolution.",
 [S, "simim/lightcone/lchandler.py", G], [("SnapHandler.grid", S), ("LCHandler.grid", "simim/lightcone/lchandler.py")], ["grid values and axes"])
L = "simim/lightcone/lcmaker.py"
prop("P22", "A light cone contains exactly the halos of the tiled box inside the cone",
 "A generated light cone contains exactly once every halo of the periodically repeated and reflected simulation volume, above the mass cut, that lies within the cone's angular shape and between its redshift limits, taken from the snapshot current at its distance, with no halo at any snapshot or box boundary missing or duplicated. Its recorded position, angles and redshift agree with each other and with the recorded orientation of the cone.",
 ["inputs", "configurations"], "every simulation box, halo catalog, opening angle, shape, aspect, redshift range and random orientation",
 "Tests build one light cone and compare redshift ranges; nothing recomputes which halos belong.",
 [L], [("LCMaker.build_lightcones / add_snapshot", L)], ["light-cone files"])
prop("P23", "Properties added to a light cone stay attached to their halo",
 "Every property added to a light cone equals, row by row, the property of the very halo (snapshot and index) that row was built from, and vector quantities equal that halo's vector reflected and rotated exactly as its position was, so magnitudes and angles between vectors are preserved. Adding properties in any order, or for several light cones at once, never disturbs rows already stored.",
 ["inputs", "histories"], "every light cone, property set, order of additions",
 "Tests add properties once and check that they exist.",
 [L], [("add_properties / add_pos_properties", L)], ["light-cone files"])
prop("P24", "Spherical light cones contain exactly the tiled halos in each shell",
 "A generated full-sky, hemisphere, quarter or eighth light cone contains exactly once every halo of the periodically tiled volume about the observer that lies in the requested part of the sky and the requested distance range, from the snapshot current at its distance, with consistent position, sky angles and redshift. Spheres too large for the box to be tiled unambiguously are refused.",
 ["inputs", "configurations"], "every box, catalog, sky fraction and redshift range that fits",
 "Tests build one sphere.",
 [L], [("SphereMaker", L)], ["light-cone files"])
prop("P25", "Light cones are reproducible and self-describing",
 "Building light cones from the same simulation, options and random seed gives identical contents, realisations are numbered consecutively and differ, and a build never alters the simulation or existing light cones unless overwriting was requested. The recorded metadata (angles, shape, redshift limits, mass cut, snapshots used) equals what was asked for, and the stored redshift index gives the exact count of halos at or below each listed redshift.",
 ["inputs", "histories"], "every option set, seed, number of realisations and sequence of builds",
 "Tests never rebuild or compare realisations.",
 [L], [("LCMaker", L)], ["light-cone files"])
C = "simim/lightcone/lchandler.py"
prop("P26", "Light-cone statistics use exactly the halos and volume of each redshift bin",
 "Statistics evaluated in redshift bins over a light cone use exactly the halos of the cone in each bin, whatever selection was in force before, volumes supplied to them equal the comoving volume of the cone's shape between the bin's redshifts, and afterwards the handler's selection is as it was. Iterating over several light cones applies each operation to each cone and returns results keyed by it.",
 ["inputs", "histories"], "every bin layout, restriction, cone shape and statistic",
 "Tests evaluate one statistic without comparing to a definition.",
 [C], [("LCHandler.eval_stat_evo", C), ("LCHandler.volume", C), ("LCIterator", C)], ["statistics, volumes, active count"])
GP = "simim/galprops/galprops.py"
prop("P27", "Evaluating a property definition binds exactly its declared inputs and units",
 "Evaluating a property definition on a catalog calls its function once, with each declared input taken from the property (or the one it is renamed to) of the active or of all objects in the unit system the definition declares, or from the catalog's extra information, plus the caller's extra arguments. Each declared property receives the corresponding result, converted to stored units by its own power of h exactly when the function does not return stored units. Missing inputs and mismatched numbers of results, units or scalings are refused, and the catalog, the caller's dictionaries and the function's own results are never modified. The predefined definitions bind their models to the inputs, names and units they advertise.",
 ["inputs", "configurations"], "every definition of one or several properties, unit convention, renaming, extra argument and catalog, and every predefined definition",
 "Tests only import the classes.",
 [GP, "simim/galprops/galprops_builtin.py"], [("Prop", GP), ("MultiProp", GP)], ["arguments the function receives; returned values; declared units"])
prop("P28", "Galaxy-property models follow their published relation elementwise",
 "Every built-in star-formation, infrared and line-luminosity model returns one finite non-negative value per galaxy that depends only on that galaxy's inputs: results do not change with array length, order or with the other galaxies present, and equal the published relation where scatter is off, with every documented option and line name taking effect and undocumented ones refused. Luminosities grow with the quantity the relation says they grow with where it is published as monotonic.",
 ["inputs", "configurations"], "every model, documented option value and array of physical inputs",
 "No test evaluates a model against its formula.",
 ["simim/galprops/line_co.py", "simim/galprops/line_fir.py", "simim/galprops/line_fir_yang.py", "simim/galprops/line_densegas.py", "simim/galprops/sfr_ir.py", "simim/galprops/sfr_behroozi13.py", "simim/galprops/sfr_bethermin17.py"],
 [("model functions", "simim/galprops")], ["returned values"])
prop("P29", "Model scatter is reproducible, unbiased as documented and of the stated width",
 "Every model that adds random scatter draws it only from the generator supplied, so equal seeds give equal results and nothing else's random state is touched or consulted; the logarithmic scatter has the requested width, is independent between galaxies and is centred so that the documented statistic (median or linear mean) is preserved. Duty cycles switch off the documented fraction of galaxies and leave the others at the full relation. Zero scatter returns the relation itself.",
 ["inputs", "configurations"], "every scatter model, width, seed and global random state",
 "No test checks scatter.",
 ["simim/galprops/log10normal.py", "simim/galprops/line_co.py", "simim/galprops/line_fir.py", "simim/galprops/line_fir_yang.py", "simim/galprops/sfr_behroozi13.py"],
 [("log10normal", "simim/galprops/log10normal.py")], ["returned values; global random state"])
A = "simim/galprops/galprops_am.py"
prop("P30", "Distribution functions are mutually consistent",
 "Every luminosity- and mass-function family provides a density, a cumulative function, an inverse and a number above a limit that agree with its formula and with each other: the cumulative function is the integral of the density and monotonic, the inverse undoes it (tabulated families to one table cell), the number above a limit is the integral of the function, and lower truncation limits are respected, elementwise and for every shape parameter. Number integrals also accept arrays of slopes.",
 ["inputs", "configurations"], "every family, parameter set and evaluation point",
 "No test touches them.",
 [A], [("distribution functions", A)], ["returned values"])
prop("P31", "Abundance matching preserves rank and number density",
 "Assigning a property by abundance matching is monotonic in the matched property (decreasing when the order is reversed), and strictly inside the matched range the fraction or number density of objects above any assigned value equals that of halos above the corresponding mass or velocity, allowing for the missing fractions and limits given, and conversely for the inverse; values that cannot be matched get the requested filler. The result for one halo does not depend on the others given. Tables made for a simulation agree with the counted number densities at every snapshot redshift, lie between neighbouring snapshots in between, are reused when present and remade when asked.",
 ["inputs", "configurations"], "every mass function, target distribution, redshift and mass array",
 "No test touches it.",
 [A, "simim/galprops/sfr_bethermin17.py"], [("abundance matching", A)], ["assigned values"])
R = "simim/siminterface/_rawsiminterface.py"
prop("P32", "Downloads fetch what is missing; nothing incomplete passes for complete",
 "Downloading raw data fetches exactly the files of the selected snapshots (and data files) that are not there, each from its own address to the simulation's folder whatever its path looks like, and leaves everything else alone; asked to download again it replaces them by what the server holds. A transfer that breaks off raises or leaves no file that a later download takes for complete: repeating the download completes the data. A listing without files is refused and not kept. Every download comes to an end.",
 ["inputs", "configurations", "histories", "fault_sequences"], "every simulation family, selection, history of downloads, removals and changes on the server, and every placement of interrupted, refused or missing transfers",
 "Tests have no network and run no download.",
 [R, "simim/siminterface/uchuu.py", "simim/siminterface/universemachine.py", "simim/siminterface/illustris.py"],
 [("download", "simim/siminterface"), ("_retrieve", R)], ["files below the simulation's raw folder; addresses asked for; errors raised"])
prop("P33", "Quick-look plots and animations show the data they name",
 "Scatter plots and histograms hold exactly the requested values of the requested objects (active, all, or both) in the requested unit system; pictures of a grid show each cell's sum or slice at that cell's place along the axes asked for, in either order, in Fourier coordinates where an axis is transformed; every frame of an animation shows the slice it marks, and the frames together everything once; response plots show each detector's response at the frequencies and offsets on the axes, the nominal frequency guessed for a detector being that of its peak. Plotting changes neither data, selections nor the options passed in.",
 ["inputs", "configurations"], "every catalog, grid, light cone, instrument, selection, unit system, choice of axes and frame",
 "No test looks at a figure.",
 ["simim/_handlers.py", "simim/map/gridder.py", "simim/lightcone/lchandler.py", "simim/instrument/instrument.py", "simim/galprops/sfr_behroozi13.py", "simim/_pltsetup.py"],
 [("plot, hist", "simim/_handlers.py"), ("visualize, animate", "simim/map/gridder.py"), ("animate", "simim/lightcone/lchandler.py"), ("plot_detector_response", "simim/instrument/instrument.py")], ["matplotlib figures"])
prop("P34", "Work on stored data that breaks off leaves nothing half-done as if done",
 "When formatting a simulation, building light cones, adding fields to them, or making, writing or deleting stored properties breaks off at any storage operation or call (disk full, interrupt, no memory), whatever is then there and readable is complete: snapshots and cones that count as finished hold all their data, no stored property or field is partly filled, everything not concerned is as it was, and raw data are only gone when formatted. Repeating the operation gives what it would have given without the interruption.",
 ["inputs", "crash_points", "fault_sequences", "histories"], "every operation on stored data, every storage operation at which it may break off, every state the file was in before, and repeated failures",
 "Tests never interrupt anything.",
 [R, "simim/lightcone/lcmaker.py", "simim/_handlers.py", "simim/siminterface/simhandler.py"],
 [("format", R), ("build_lightcones, add_properties, add_pos_properties", "simim/lightcone/lcmaker.py"), ("make_property, write_property, delete_property", "simim/_handlers.py")], ["data.hdf5 and lc_*.hdf5 after a failure", "the same after repeating"])
prop("P35", "A request that is refused or fails changes nothing",
 "Requests that cannot be met (axes, cells, properties or names that do not exist, sizes that do not fit, options not known, names in use, shells and angles too large, functions of the user's that fail) are refused with an exception, and a refused or failed request leaves the grid, instrument, handler or set of light cones as it was: data, axes, units, transforms, selections, detectors, defaults, maps, loaded and stored properties, files, and the arguments passed in. The name of a refused set of light cones stays free.",
 ["inputs", "configurations", "histories"], "every public method of grids, instruments, handlers and light cone makers that can refuse, every kind of unmet request, and every state of the object",
 "Tests check a few refusals and never what they leave behind.",
 ["simim/map/gridder.py", "simim/instrument/instrument.py", "simim/_handlers.py", "simim/siminterface/simhandler.py", "simim/lightcone/lchandler.py", "simim/lightcone/lcmaker.py"],
 [("pad, crop, convolve, down_sample, power_spectrum", "simim/map/gridder.py"), ("add_detector, map_fields", "simim/instrument/instrument.py"), ("make_property, write_property, delete_property", "simim/_handlers.py"), ("eval_stat_evo", "simim/lightcone/lchandler.py"), ("__init__", "simim/lightcone/lcmaker.py")], ["exception raised or not", "attributes, arrays and files before and after"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
