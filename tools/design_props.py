"""Per-property part of DESIGN.md: (specified, generated, oracle, bounds and free choices, beyond the tests)."""
D = {
"P01": ("what each cell holds after any additions; the count of objects; what other properties and the caller's arrays hold",
        "1-4-dimensional grids with dyadic and awkward cells; histories of 1-5 additions (column selections in any order, new properties, repeats in a cell, empty, integer and out-of-bounds catalogs); the one-call `Gridder`; catalogs of thousands",
        "positions are built as cell index plus fraction, so the cell is known without arithmetic; a dictionary of cells; numpy's histogram for large catalogs",
        "positions exactly on an inner edge only where the cell size is dyadic; `Gridder` fitted to its positions must hold them all",
        "repeats that are not adjacent, several additions, one-dimensional, empty and integer catalogs"),
"P02": ("sums per cell along the array or spectral axis", "objects, arrays, spectral functions (per cell or cumulative), any axis, looped, vectorised, chunked, property selections",
        "per-object scalar evaluation of the same formula at independently computed centers or edges", "functions are smooth and finite", "axes other than the last, chunks, cumulative functions, several properties"),
"P03": ("lattice attributes and data after each step", "histories of up to ten pad/crop/scale/copy/add/transform and rejected calls",
        "a model lattice that is updated from the operations alone and never reads the grid back", "rounding of side lengths that are no whole number of cells is not judged", "combinations: crop then grid, pad after scale, lists of axes in any order"),
"P04": ("value per point, order of properties, not-a-number outside", "points by cell and fraction, in and out, any shape of property request, empty and integer lists", "the cell is known by construction", "no points within 1e-9 of an edge unless exact", "property order, integers, no points"),
"P05": ("the transform, its inverse, flags and axes", "real and complex grids, sequences of transforms of axis subsets, all parities, normalised or not", "the defining sum; Parseval; plane waves; round trips", "1e-9 relative to the largest mode", "mixed spaces, odd lengths, order of axes"),
"P06": ("modes of auto and cross spectra, flags, inputs untouched", "pairs of grids, axis subsets, initial spaces, numbers of properties, in place or not", "products of the defining sum; translation and exchange", "as P05", "several properties, subsets of axes, grids already transformed"),
"P07": ("mean, deviation, count per shell", "grids, axis subsets, shells, centers, weights, masks", "masks over independently computed radii, shell by shell", "shells whose edge coincides with a radius to rounding are skipped", "last shell, fractional weights, centers with subsets"),
"P08": ("convolution at every cell", "grids and kernels of every size and dimension, axis subsets, padding", "the direct sum; identity; linearity", "1e-9 of the largest value", "kernels of lower dimension, subsets with several properties"),
"P09": ("reduced values and axes; inputs untouched", "axis subsets in any order, weights of each documented shape, factors", "numpy sums over independently computed axes; writes into the result must not reach the original", "-", "order of axes, several weights, sharing between results"),
"P10": ("attributes and later behaviour of the loaded grid", "grid states reached by random operations, with and without data, compressed or not", "attribute by attribute, then the same follow-up operations on both", "-", "partly transformed grids, counts, overwriting"),
"P11": ("kernel values, axes, function values", "widths, cells, extents, exponents, axes", "the Gaussian in terms of the full width at half maximum; functions at independently computed centers", "'area' means unit sum; default extents of `SpectralPSF` and descending spectral axes are not judged", "even sizes, spectral widths channel by channel, axes with rounding"),
"P12": ("maps per detector and field", "cubes of 1-3 properties, 1-4 detectors sharing or nearly sharing responses, several fields of different geometry, every way to size the kernel", "direct sum over beam and band", "no detector whose band has no weight in the field", "near-clones, several fields, other properties than the first"),
"P13": ("maps, listings, refusals after any history", "3-16 operations, among them changes outside the instrument and rejected calls; guided towards re-adding and partial mapping", "a model of the configuration", "-", "re-added names, partial maps, shared keyword dictionaries"),
"P14": ("samples and noise", "pointings in and out, offsets, groups of noise functions; long white-noise series", "map cells known by construction plus the noise function evaluated separately; scaling law with 6.5-sigma bounds", "-", "offsets of later detectors, noise per detector"),
"P15": ("returned values, listings, file contents", "4-16 operations on a snapshot or cone; 3-10 on a simulation with or without persistent handlers", "a dictionary of what is in memory and what is on disk: memory takes precedence; load and unload return to the disk's value and unit; delete removes both; wrong-length results and refused overwrites change nothing",
        "the listing of generated properties is compared loosely; keys of a persistent `SimHandler` right after a change are not judged", "overwrites and reopenings in any order, type changes on disk"),
"P16": ("values, bounds, statistics, grids, box sizes and volumes in either unit system", "five values of h, powers -3..2, opening default and per-call choice varied apart, properties made by functions in either system", "stored value times h to its power; masks over converted values", "bounds are kept clear of values (conversion rounds)", "h other than 0.7, mixed defaults, derived properties with several inputs"),
"P17": ("active objects and everything computed from them", "3-14 restrictions, resets, makes and statistics; 2-8 on a simulation", "a boolean mask", "h is 1 here so that bounds equal to values are exact", "three and more restrictions, undefined values, empty selections"),
"P18": ("formatted files, mass index, reruns", "1-4 snapshots of 0-30 objects, 1-5 format calls with every flag; raw files of all eight families shipped, chunked as released", "rows paired by a unique field; index recounted; declared unit against raw unit",
        "the attribute 'snapshots' of a first partial format and masses of the '_testbox' are not judged; order of UniverseMachine's file list is assumed sorted; the unit of Uchuu's Mvir is not judged", "ties, partial formats, changed raw data, names with spaces"),
"P19": ("metadata, look-ups, per-snapshot statistics", "1-8 snapshots in any order and numbering of every shipped family; redshifts on, beside and between boundaries", "ages and distances computed anew; the containing interval", "exactly on a shared boundary either neighbour is right", "few, many, unordered snapshots; statistics by number"),
"P20": ("registered places through any history and reopening", "4-14 registrations, root changes, look-ups, constructions through two open registries; and a fast check of the registry alone", "a dictionary kept on disk", "names without spaces (they separate the file's columns)", "returning to earlier places, trailing spaces, prefixes"),
"P21": ("gridded sums, axes, units", "snapshots and cones of 0-80 objects, limits, cell sizes, units, selections, normalisations, rest frequencies", "objects at half-steps of a lattice; cell-by-cell sums", "totals only where the default resolution makes an edge pass through an object", "mixed units, one cell size per axis, swapped limits"),
"P22": ("which periodic image of which halo is in a cone, and its row", "1-4 snapshots of 0-400 halos, boxes of 60-250 Mpc/h, faces to 0.18 box lengths and 0.2 rad, box and circular shape, copies; and halos aimed at surfaces, corners, ends and pass boundaries using the orientation a first empty build with the same seed recorded; minimum masses equal to a halo's", "brute force over all images", "images within 1e-6 of a limit may be either", "edges, corners, ties, copies: the places where buffers are too small"),
"P23": ("properties added later", "1-3 cones or spheres, 1-5 additions of scalars, integers, vectors, own properties in between", "the parent halo named in the index; vectors through the recorded flips and rotations", "-", "copies, vectors, several snapshots of equal length"),
"P24": ("which image of which halo is in a shell", "as P22 with four parts of the sky, and shells that do not fit", "as P22", "radius at most min(1, 1/h) times the box; between that and 1/h lies the known finding", "fractional skies, edges, snapshot at the start"),
"P25": ("repeatability, files, metadata", "a first build and 1-4 further ones, same or other seed, overwriting asked for, refused or answered", "earlier builds row by row, files by digest, metadata against options, redshift index against counts", "rows within 1e-7 of a listed redshift may fall either way", "global generator, second builds, passes over several listed redshifts"),
"P26": ("statistics in bins, volumes, iteration", "hand-written cones and spheres; layouts, volume requests, 1-7 operations over 1-4 cones", "recording statistic against masks; a third of the cubed distances times the solid angle; separate handlers on copies", "redshifts never on a bin edge", "bins of different volume, units, failures inside an iterator"),
"P27": ("what a definition's function receives and what is stored", "1-4 properties with every unit declaration, renamed inputs, extra arguments, right and wrong results; every predefined definition", "independently converted arguments and results; direct calls of the advertised model", "-", "chains of renames, results aliasing inputs"),
"P28": ("every model with scatter off", "1-250 galaxies, every option, all dtypes, values exactly on thresholds; refusals; fits of the two-mode model", "relations written anew from the publications; subsets and single numbers",
        "coefficients are those of the code's tables where publication and table cannot be told apart offline (e.g. [NeII] of Spinoglio); Behroozi flat beyond its table; growth only for models published as monotonic; ages of more than 100 redshifts to 2% (see P28 in the code: interpolated)", "every line, redshift range, dtype, scalar"),
"P29": ("scatter and duty cycles", "2000-4000 galaxies through every scatter model, widths, switches, generators", "four moments, lag and line correlations, counts within 7 standard errors; equal seeds; untouched generators", "7-sigma bounds: about 1e-12 per comparison", "distributions at all: tests only check that something changed"),
"P30": ("distribution families", "four families, scales over 13 orders, slopes -2.7 to 1.5, points from below to far above the limits", "adaptive quadrature of the published form", "tabulated families to one cell (0.002 dex)", "pdf, cdf, inverse and counts against each other"),
"P31": ("abundance matching", "catalogs with ties, distributions, limits, missing fractions, extrapolation; tables from simulations with kept, remade and empty snapshots", "counted ranks against integrated numbers", "values at a cumulative fraction of exactly 0 or 1 are the known finding; not-a-number accepted beside unmatched snapshots; inverse to one cell", "limits, missing fractions, reuse of tables"),
"P32": ("files on disk, addresses asked for, errors", "ten simulations of four families; 3-10 operations; faults on transfers and listings", "stand-ins for requests, urllib and wget; a dictionary of what is on disk; content carries the server's version", "order of requests is free; temporary files beside the data are ignored; Illustris files of an unknown count are judged by their first file", "interrupted transfers, partial snapshots, paths"),
"P33": ("what figures hold", "plots of catalogs, grids, cones, detectors and a model table, all options", "artists read back from matplotlib (points, bars, cell corners, colours, marker sizes) against values computed apart; animation functions called frame by frame", "colours by eye, layout and fonts are not judged; nothing is rendered to video; bars within 1e-5 of an edge may fall either way", "axes in descending order, mixed units, four dimensions"),
"P34": ("what is there after a failure, and after repeating", "formatting, building, adding fields, making/writing/deleting properties; one or two failures at any storage operation", "a twin without the failure; the state before", "a failing call does nothing (torn writes inside HDF5 are not modelled); damage that HDF5 itself reports when opened is not judged", "half-filled fields, early completion marks, raw data removed too soon"),
"P35": ("refusals and what they leave behind", "catalogues of flaws for every refusing method of grids, instruments, handlers and makers", "must-refuse predicates written from the documentation; pictures before and after", "a batch over snapshots whose function fails in a later one keeps the finished ones; warnings instead of refusals are not judged", "half-done changes before a late check"),
}
