G = "Hypothesis property-based testing: generated grids and call sequences against a reference model"
def m(tech, rule, note, root=False, assumptions=()):
    return {"technique": tech, "rule": rule, "note": note, "root": root, "assumptions": list(assumptions)}
SAMPLE = " Holds on every case generated, not proved; bulk numbers derive from integers the case carries."
META = {
 "P01": m(G, "Random grids (1-4 dims, anisotropic, dyadic and awkward cell sizes) and histories of additions (column selections, new properties, empty, integer and out-of-bounds catalogs); non-trivial: at least one object inside and more than one addition (history), more than one object inside (wrapper), objects both inside and outside (large).", "Exact comparison with a cell-by-cell reference over histories and with numpy's histogram for large catalogs." + SAMPLE),
 "P02": m(G, "Random objects, arrays and spectral functions on any axis, with chunking, looping, cumulative evaluation, property selection; non-trivial: at least one object inside.", "Comparison with per-object scalar evaluation of the same formula at independently computed cell centers and edges." + SAMPLE),
 "P03": m("Hypothesis model-based (stateful) testing: operation histories against a lattice model", "Histories of pad/crop/scale/copy/add/transform/rejected calls; non-trivial: at least two operations of which one changes geometry.", "After every step all geometry attributes and all data are compared with a model lattice that never reads them back." + SAMPLE),
 "P04": m(G, "Random grids and points built as cell index plus fraction; non-trivial: points both inside and outside or several inside.", "The cell of each point is known by construction, without floating-point arithmetic." + SAMPLE),
 "P05": m(G, "Random real/complex grids and sequences of transforms of axis subsets; non-trivial: some axis longer than 2.", "Compared with the defining discrete Fourier sum, Parseval, plane waves and round trips." + SAMPLE),
 "P06": m(G, "Random grid pairs, axis subsets, initial spaces, property counts; non-trivial: some axis longer than 2.", "Compared with products of the defining discrete Fourier sum; translation and exchange as metamorphic relations." + SAMPLE),
 "P07": m(G, "Random grids, axis subsets, shells, centers and weights; non-trivial: some shell holds more than one cell. Shells whose edge coincides with a cell radius to rounding are skipped.", "Compared shell by shell with masks over independently computed radii." + SAMPLE),
 "P08": m(G, "Random grids and kernels; non-trivial: kernel and grid of more than one cell.", "Compared with the direct convolution sum; identity and linearity as metamorphic relations." + SAMPLE),
 "P09": m(G, "Random grids, axis subsets in any order, weights of each documented shape, down-sampling factors; non-trivial: more than one cell per output cell.", "Compared with numpy sums over the reduced axes computed independently; input independence checked." + SAMPLE),
 "P10": m("Hypothesis property-based testing: round trip and differential behaviour of the loaded object", "Random grid states reached by random operations, saved and loaded, then driven through the same follow-up operations; non-trivial: grid has data and was operated on or has several properties.", "Loaded and original grids are compared attribute by attribute, also after identical follow-up operations." + SAMPLE),
 "P11": m(G, "Random widths, cells, extents, exponents and axes; non-trivial: more than two cells (kernels), more than one (axes).", "Compared with the Gaussian formula written in terms of the full width at half maximum, and with functions evaluated at independently computed cell centers." + SAMPLE),
}
IN = "Hypothesis property-based testing: generated instruments and cubes against a reference model"
META["P12"] = m(IN, "Random cubes (1-3 properties), 1-4 detectors sharing or not their beams, built-in and lopsided custom responses, kernel by size, pair, resolution or explicit beam; non-trivial: kernel, map and band of more than one cell.", "Maps compared with a direct sum over beam and band evaluated point by point; linearity, detector independence and the flat limit as metamorphic relations." + SAMPLE)
META["P13"] = m("Hypothesis model-based (stateful) testing: operation histories against a configuration model", "Histories of 3-16 detector/field additions, deletions, response changes, mapping, sampling, external changes and rejected calls; non-trivial: a map was sampled successfully and maps exist or a stale one was refused.", "Every sample is compared with what the current configuration must give; sampling after a change without remapping must raise; listings compared after every step." + SAMPLE)
META["P14"] = m(IN, "Random pointings (in and out of the map), detector offsets and noise functions, several fields; white noise over sizes, widths and time steps; non-trivial: several samples and detectors with some inside (samples), a long series of non-zero width (white).", "Samples compared with map cells known by construction plus the noise function evaluated separately; white noise by its scaling law and 6.5-sigma moment bounds." + SAMPLE)
HH = "Hypothesis model-based (stateful) testing: operation histories against a dictionary model"
META["P15"] = m(HH, "Histories of 4-16 make/write/load/unload/delete/reopen/restrict/rejected operations on catalogs of 0-7 objects with integer, float32 and float64 columns (history), and of 3-10 operations over 1-3 snapshots with or without persistent handlers (simulation); non-trivial: at least one property made on a catalog of more than one object.", "After every step all listings, units and values, and the file's contents, are compared with the model." + SAMPLE, root=True)
META["P16"] = m("Hypothesis property-based testing: generated catalogs, unit systems and queries against independently converted values", "Catalogs of 0-8 objects, five values of h, scaling powers -3..2, handler default and per-call override varied independently, properties made by functions in either unit system, then 3-10 values/statistics/selections/grids; non-trivial: h differs from 1, more than one object, scaled quantities asked for in both unit systems (snapshot).", "Values compared with stored value times h to its power, selections with masks over independently converted values (bounds kept clear of values)." + SAMPLE, root=True)
META["P17"] = m("Hypothesis model-based (stateful) testing: selection histories against a boolean mask", "Histories of 3-14 restrictions (bounds equal to values, one-sided, empty, on stored, derived and partly undefined properties), resets, makes and statistics on catalogs of 0-9 objects with and without ties (history); 2-8 operations over 1-3 persistent snapshots (simulation); non-trivial: some restriction selected a proper, non-empty part.", "After every step count, order and values of the active objects are compared with the mask." + SAMPLE, root=True)
META["P18"] = m("Hypothesis property-based and model-based testing: generated raw catalogs and histories of formatting calls", "A plain SimCatalogs subclass over 1-4 snapshots of 0-30 objects (ties, masses across and beyond the table, float32 or float64), 1-5 format calls with every flag, changed raw data, user properties and clean-ups in between, folder names with spaces (format); raw files of all eight families of shipped simulations, chunked as released (shipped); non-trivial: a snapshot of several objects was formatted and something followed (format), several objects (shipped).", "Rows are paired with raw objects by a unique field and compared in full; the mass index is recounted; deletions run under a guard that only lets the simulation's own scratch folder be touched." + SAMPLE, root=True)
META["P19"] = m("Hypothesis property-based testing: generated snapshot lists against an independent cosmology calculation", "1-8 snapshots at redshifts 0-26 (some kept, some not; listed in any order; numbered with gaps) of every shipped family, random cosmologies where the family takes one from its service; redshifts on, next to and between the boundaries; non-trivial: more than one snapshot.", "Metadata produced by the real download_meta (the web service answered by a stand-in) are compared with ages and distances computed anew; look-ups through a handler are compared with the containing interval." + SAMPLE, root=True)
META["P20"] = m("Hypothesis model-based (stateful) testing: registration histories against a dictionary kept on disk", "Histories of 4-14 registrations (explicit, relative, automatic, asked for, missing; with every kind of answer to questions), changes of the data directory, look-ups, and constructions of catalogs and light-cone makers, through two simultaneously open registries; names that are prefixes of each other, locations with spaces; non-trivial: at least two names registered.", "After every step the open and a newly opened registry are compared with the dictionary, and handlers must find exactly the registered place." + SAMPLE, root=True)
META["P21"] = m("Hypothesis property-based testing: generated catalogs, limits and unit systems against cell-by-cell sums", "Catalogs of 0-80 objects, 1-3 stored and made properties in any order, limits (default, inside, partly outside, swapped), cell sizes (one, one per axis, default), handler default and per-call units, selections, normalisations, rest frequencies (cone); non-trivial: more than one object inside the limits, h not 1 (snapshot).", "Objects sit at half-steps of a lattice so that the cell of each is known whatever the rounding; where the default resolution makes an edge pass through an object only totals are compared." + SAMPLE, root=True)
META["P22"] = m("Hypothesis property-based testing: generated simulations and cone geometries against brute force over all periodic images", "Simulations of 1-4 snapshots of 0-400 halos in boxes of 60-250 Mpc/h, cone faces up to 0.09 box lengths or 12 degrees, redshift limits inside, on snapshot boundaries or default, mass cuts, box and circular shape, families that may and may not be copied; non-trivial: at least two halos in the cones.", "Every stored row is resolved to its periodic image; the set of images is compared with all images inside the cone (those within 1e-6 of a limit may be either)." + SAMPLE, root=True)
META["P24"] = m("Hypothesis property-based testing: generated simulations and spherical shells against brute force over all periodic images", "Simulations of 1-4 snapshots of 0-6000 halos in boxes of 60-250 Mpc/h, all four parts of the sky, redshift limits inside, on snapshot boundaries or as large as fits, mass cuts; non-trivial: at least two halos in the shells (sphere), h not 1 (size).", "Every stored row is resolved to its periodic image; the set of images is compared with all images in the shell and part of the sky (those within 1e-6 of a limit may be either); shells that do not fit must be refused." + SAMPLE, root=True)
META["P23"] = m("Hypothesis model-based (stateful) testing: histories of additions against the parent halos", "1-3 light cones or spheres of a generated simulation and 1-5 additions of scalar, integer and vector properties in any grouping and order, unknown and already present names, own properties written through a handler in between; non-trivial: at least two halos and one property added.", "After every step all columns of all cones are compared, row by row, with the parent halo named in the index; vectors with the halo's vector under the recorded reflection and rotations." + SAMPLE, root=True)
META["P25"] = m("Hypothesis model-based (stateful) testing: histories of builds against earlier builds and the options asked for", "A first build of 1-3 cones or spheres and 1-4 further builds (same seed, another seed, no generator, overwriting, asked and answered no or yes, refused); non-trivial: at least two halos and a further build.", "Builds of equal seed are compared attribute by attribute and row by row, files of other builds and of the simulation by digest, metadata with the options, the redshift index with counts (rows within 1e-7 of a listed redshift may fall either way)." + SAMPLE, root=True)
META["P26"] = m("Hypothesis property-based and model-based testing: generated cones, bin layouts and iterator histories against masks, an independent volume and separate handlers", "Hand-written cones and spheres of 0-12 halos; 1-5 selections and binned statistics in any order with every keyword (evo); 1-6 volume requests of every shape, size and redshift range (volume); 1-7 operations over 1-4 cones with matching or differing parameters (iterate); non-trivial: some bin holds a proper, non-empty part (evo), a volume accepted with h not 1 (volume), more than one cone with objects (iterate).", "What the statistic receives is recorded and compared with masks over the catalog (redshifts never on a bin edge); volumes with a third of the difference of cubed distances times the solid angle; an iterator with separate handlers on copies of the files." + SAMPLE, root=True)
META["P27"] = m("Hypothesis property-based testing: generated definitions evaluated with a recording function on a model catalog", "Definitions of 1-4 properties with every unit and scaling declaration (right and wrong), 1-4 inputs renamed or not (existing or not), extra arguments, results as list, tuple or array of right or wrong number (definition); all predefined definitions on random halos (builtin); non-trivial: objects, h not 1 and a scaled result (definition), more than one object and h not 1 (builtin).", "Arguments the function receives and values returned are compared with independently converted ones; predefined definitions with direct calls of the model they advertise, equal seeds." + SAMPLE, root=True)
META["P28"] = m("Hypothesis property-based testing: generated galaxies and options against independently written published relations", "1-250 galaxies (zero rates, special redshifts, one redshift for all, float64, float32 and integer columns), every model with every documented option (relation), options that do not exist (refusal), parameters of the main-sequence, star-forming fraction and luminosity-function fits (fit); non-trivial: more than one galaxy.", "Compared value by value with the relation written anew from the publication; subsets, single numbers and sorted inputs as metamorphic relations." + SAMPLE, root=True)
META["P29"] = m("Hypothesis property-based testing: generated galaxies, widths and seeds against the distribution stated", "2000-4000 galaxies through every scatter model with default, zero and given widths (scatter), every shape through the scatter function (helper), duty cycles of four models (duty), the star-formation rates of the two-mode model (rate); non-trivial: width above zero (scatter, helper), some galaxy neither always on nor always off (duty), more than 100 galaxies (rate).", "Four moments and correlations of the logarithmic scatter, and counts, within seven standard errors of the stated ones; equal seeds, the untouched global and default generators as differential relations." + SAMPLE, root=True)
META["P30"] = m("Hypothesis property-based testing: generated parameter sets and points against adaptive quadrature of the published forms", "Four families over 13 orders of magnitude in scale, lower limits from above the knee to six dex below, slopes from -2.7 to 1.5 including the integers (agree); 2-6 parameter sets at once (slope); parameters outside their range (refuse); non-trivial: some point above the lower limit (agree), slopes on both sides of -1 (slope).", "Density, cumulative function, number above a value and inverse are each compared with the integral of the formula; random values by the largest deviation from the cumulative function; the two tabulated families to within one cell of their table." + SAMPLE)
META["P31"] = m("Hypothesis property-based testing: generated catalogs and distributions against counted ranks and number densities", "Catalogs of 3-90 values (with ties) or distributions matched to distributions of the package and of scipy, limits, missing fractions, all kinds of extrapolation, both orders, refused arguments (match); simulations of 2-3 snapshots of 20-250 halos through both table-based models, with kept and remade tables (table); non-trivial: more than one value inside the matched range.", "The fraction (or number per volume) above an assigned value is integrated separately and compared with the counted rank, to within one object; fill values exactly." + SAMPLE, root=True)
META["P32"] = m("Hypothesis model-based (stateful) testing with fault injection: generated download histories against stand-in services and a dictionary of files", "Ten simulations of the four families, 1-4 snapshots, folders with spaces and with the names of data files, 3-10 operations (open, download with chosen data files or again, remove or replace a file, newer data on the server, metadata), up to five faults placed on transfers (cut short, reset, refused, missing) and up to two on the listing; non-trivial: something was downloaded and more than two operations.", "The services (requests, urllib, a program wget) are stand-ins that answer from a table and record what was asked; files on disk are compared with a model after every download." + SAMPLE, root=True)
META["P33"] = m("Hypothesis property-based testing: generated data and plot requests against the artists drawn", "Catalogs of 1-8 objects with selections and 1-3 scatter plots or histograms (handler); grids of 2-4 dimensions, any of them transformed, seen along any axes, as sum, slice, animation or still (grid); cones of 1-12 halos, both unit systems, every frame (cone); 1-4 detectors with lopsided responses (detector); the two tables of the Behroozi model (table); non-trivial: a proper selection (handler), sides of different length (grid), more than one halo and h not 1 (cone), an off-center response (detector).", "What was drawn is read back from the figure: points, bar heights, cell corners and colours, marked slices, sizes of markers, titles and labels; animations are stepped frame by frame." + SAMPLE, root=True)
META["P34"] = m("Hypothesis fault injection: generated operations on stored data broken off at a generated storage operation, against the same without interruption", "1-3 snapshots of 0-9 halos with 0-2 earlier formattings and new raw data (formatting); 1-2 cones or spheres, also over older ones (building); fields added to cones (extras); 0-3 earlier operations on 1-3 snapshots (storage); one of up to several hundred storage operations fails with a full disk, an interrupt or no memory, once or twice in a row; non-trivial: the fault struck and there was more than one row of data.", "The k-th call of h5py's file, group, dataset and attribute operations (or of the user's function or raw loader) raises instead of acting; k runs over all those counted in an uninterrupted twin, which is also the oracle for what is complete." + SAMPLE, root=True)
META["P35"] = m("Hypothesis property-based testing: generated objects and flawed requests against pictures of the object, its files and the arguments before and after", "17 methods of grids with up to nine flaws each, also after transforms and earlier operations (grids); instruments of up to three detectors with functions that fail now and then (instruments); snapshots, simulations and cones with properties stored, in memory or only in some snapshots (handlers); light cone and sphere makers, names free and in use, retried (makers); non-trivial: the request must be refused and there was something to damage.", "Every attribute of the object is pictured before and after (arrays by value, functions by identity), files by content; a request which must be refused has to raise, whatever the exception." + SAMPLE, root=True)
NA = {}
