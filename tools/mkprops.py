"""Regenerates /verif/properties.jsonl (one property per line)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A predicted tide is the masked superposition of its constituents",
 "The tide predicted for an output element is the sum, over the constituents supplied, of each constituent's own modulated cosine contribution at exactly that element's location and time, whether the map, along-track (drift) or time-series layout is used. It does not depend on the order in which the constituents are listed, on which other locations or times are in the same call, or on how the call is split into chunks. An element is flagged invalid exactly when some constituent is flagged invalid at its location, and the inputs handed in are left unchanged.",
 ["inputs", "configurations"],
 "all constituent subsets and orderings x mask patterns x batches/chunkings of locations and times x the three layouts x nodal-correction conventions",
 "The stable tests call the predictors for one fixed constituent list, one layout and no mask; independence from order, batch and mask pattern quantifies over all of them.",
 ["pyTMD/predict.py", "pyTMD/arguments.py"],
 [("map/drift/time_series accumulation loops and mask reduction", "pyTMD/predict.py:map, drift, time_series"),
  ("nodal arguments looked up per constituent column", "pyTMD/arguments.py:arguments")],
 [("hc", "complex constituent amplitudes per location with mask", "pyTMD/predict.py")],
 ["return value of the three prediction layouts (data and mask)"])

prop("C02", "Nodal corrections and equilibrium arguments obey constituent algebra",
 "The amplitude factor, phase correction and equilibrium argument of a constituent depend only on that constituent, the time and the chosen model convention, never on which other constituents or times are evaluated with it or in which order. Compound tides and overtides whose nodal modulation is modelled have amplitude factors that are the products, and phase corrections and equilibrium arguments that are the sums, of those of their parent constituents. The equilibrium argument is the integer (Doodson) combination of the astronomical longitudes belonging to the constituent and advances with time at exactly the constituent's published frequency.",
 ["inputs", "configurations"],
 "all supported constituents (singly, in all pairs, in random batches and orders) x times x the OTIS/FES/GOT-family conventions",
 "Tests compare a fixed list of constituents with a frozen copy of the same formulae at a few epochs; interactions between entries of a request and the parent/compound relations over all constituents and conventions are not asserted.",
 ["pyTMD/arguments.py"],
 [("per-constituent nodal branches", "pyTMD/arguments.py:nodal"),
  ("coefficient table x astronomical arguments", "pyTMD/arguments.py:arguments, coefficients_table"),
  ("frequency from the same table", "pyTMD/arguments.py:frequency, aliasing_period")],
 [], ["(pu, pf, G) returned for a request", "constituent frequencies"])

prop("C03", "Doodson, Cartwright and extended Doodson codes round trip",
 "For every supported constituent the Doodson number, Cartwright number and extended Doodson (XDO) alphabetical code denote the same six small integers as the coefficient table, and converting any representable coefficient vector to a code and back returns it unchanged. A code that is written down as a number with its conventional two or three decimals (including trailing zeros) or as text decodes to the same coefficients. A list request returns exactly one entry per requested constituent.",
 ["inputs"],
 "all 7-digit Doodson vectors in the representable range (digits offset by five), XDO letters R..Z,A..Q, all named constituents, scalar and list requests",
 "Two tests round trip a handful of published numbers; trailing zero decimals, boundary letters and negative leading digits are never generated.",
 ["pyTMD/arguments.py", "pyTMD/io/constituents.py"],
 [("encode/decode", "pyTMD/arguments.py:_to_doodson_number,_from_doodson_number,_to_extended_doodson,_from_extended_doodson"),
  ("lookup", "pyTMD/arguments.py:doodson_number, _arguments_table, _minor_table")],
 [], ["returned numbers/codes"])

prop("C04", "Minor tides are inferred exactly for the missing minors, linearly",
 "Inferring minor constituents adds, for every inferable minor constituent that is requested and is not already among the supplied constituents, one contribution that depends only on that minor, the supplied major constituents, the location and the time; supplied constituents are never inferred again and unrequested ones never contribute. The result is linear in the supplied major constituents and is evaluated at each element's own location and time; it is zero, with the prediction's own shape and mask, when there is nothing to infer. Inference of a band is refused only when too few of its majors are present.",
 ["inputs", "configurations"],
 "all subsets of majors x subsets of minors requested (one, none, all) x layouts x conventions",
 "The tests compare one full inference with the frozen original code; which subset is inferred depends on every combination of supplied and requested constituents.",
 ["pyTMD/predict.py", "pyTMD/arguments.py", "pyTMD/compute.py"],
 [("selection of minors and majors by name", "pyTMD/predict.py:infer_minor and the per-band helpers"),
  ("minor arguments", "pyTMD/arguments.py:minor_arguments, arguments")],
 [], ["inferred tide per element"])

prop("C05", "Driver-level corrections land on the right place, time and layout",
 "The high-level elevation and current functions return, for every output element, the value obtained for that element's own coordinates and its own time, whether the data are a grid, an along-track drift or a time series, and the output has the dimensions of that layout. The same physical request expressed with a different reference epoch, time standard, numeric or calendar time type, projection, data-type spelling or chunking gives the same answer. Elements outside the model carry the requested fill value and only they do.",
 ["inputs", "configurations"],
 "layouts x letter case of the layout name x epochs x UTC/GPS/TAI/datetime x projections x model formats x inferred-minor switch x fill values x batch splits",
 "Every test of the drivers needs downloaded model files, so none of it runs in the stable suite; and it is a relation between calls.",
 ["pyTMD/compute.py", "pyTMD/spatial.py", "pyTMD/crs.py"],
 [("layout handling and time conversion", "pyTMD/compute.py:tide_elevations, tide_currents"),
  ("layout classification", "pyTMD/spatial.py:data_type")],
 [], ["masked array returned by the drivers"])

prop("C06", "The same tide is read whatever the model file format",
 "If the same constituent grids are stored in different supported model formats (OTIS binary, ATLAS netCDF, TMD3 netCDF, GOT text/netCDF, FES text/netCDF, compressed or not), the constants extracted at a point are the same complex constituents in metres (or the declared units), attributed to the right constituent names in the order requested. Scale factors, units, phase sign conventions, missing values and transports-to-velocity conversion are applied exactly once. The order of the files given does not affect what is returned for a constituent.",
 ["inputs", "configurations"],
 "formats x compression x scale x order of files/constituents x land patterns x points",
 "Format readers are only tested against downloaded models (not available), each against itself; equality across formats is never asserted.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py", "pyTMD/io/model.py"],
 [("binary/netCDF/text readers", "pyTMD/io/*.py read_* functions"),
  ("units and scale", "pyTMD/io/*.py extract_constants")],
 [], ["amplitude, phase, depth, constituent list returned"])

prop("C07", "Longitude convention and the global seam do not change results",
 "A query at a longitude and at the same longitude plus or minus 360 degrees returns the same constituents. On a global grid the field is periodic: points between the last and the first column are interpolated between those two columns for any interpolation method, whichever longitude the grid starts from (0..360 or -180..180). Only points that are really outside a regional grid are invalid.",
 ["inputs"],
 "grids starting at 0 or -180 (cell- or node-registered) x query longitudes in -180..360 including the seam columns x methods x formats",
 "A test on two fixed points cannot exercise the seam of every grid, and the readers are not exercised by the stable suite at all.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py"],
 [("longitude adjustment and one-cell periodic extension", "pyTMD/io/*.py extract_constants, interpolate_constants, _extend_array, _extend_matrix")],
 [], ["constituents at seam points"])

prop("C08", "Cropping a model to a region does not change values inside it",
 "Extracting constants with cropping enabled, with explicit bounds or with bounds derived from the query points, returns at every query point inside the bounds the same values and the same validity as extracting from the whole model. The crop never depends on the longitude convention of the bounds. A crop window and buffer only determine how much of the grid is read.",
 ["inputs", "configurations"],
 "bounds x buffers x grid origins x longitude conventions x formats x interpolation methods",
 "Cropping has no stable test; equivalence ranges over all windows including windows that straddle the grid's first column.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py"],
 [("crop and shift of grids", "pyTMD/io/*.py:_crop, _shift")], [], ["constituents inside the window"])

prop("C09", "Reading once and interpolating many times equals direct extraction",
 "Reading a model's constituents once and then interpolating them to points returns the same amplitudes, phases, bathymetry and validity as extracting them directly for those points, for any split of the points over calls. Repeating a call, or interleaving calls for other points, variables or options on the same model object, returns the same result as the first call on a fresh one. Queries never alter the loaded constituents, the model definition or the caller's coordinate arrays.",
 ["histories", "configurations"],
 "interleavings of extract/read/interpolate calls (points, methods, extrapolation, append-node) on shared objects x formats",
 "Tests make one call per object; history dependence needs sequences of calls on a shared object.",
 ["pyTMD/io/model.py", "pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py"],
 [("cached constituents", "pyTMD/io/model.py:read_constants, interpolate_constants, extract_constants")],
 [("_constituents", "constituents loaded by the last read", "pyTMD/io/model.py"), ("constituents", "constituent names of the model", "pyTMD/io/model.py")],
 ["results of each call of a history"])

prop("C10", "Land stays invalid unless extrapolated within the cutoff",
 "Without extrapolation a query point is valid exactly when it lies inside the model domain and the grid cells it needs are wet, and land fill values never leak into returned amplitudes. With extrapolation, valid points keep exactly their interpolated value, an invalid point receives the value of the nearest valid grid cell when that cell lies within the cutoff distance, and stays invalid otherwise; an unlimited cutoff fills every point of the model domain, and points outside that domain stay invalid. Distances are measured on the Earth (in space, whatever the longitude convention or the seam) for geographic models and in the plane of the grid for projected ones.",
 ["inputs", "configurations"],
 "land masks x query points x cutoff distances (0, between neighbours, infinite) x formats x geographic/projected",
 "Only a few extrapolation tests exist and they need downloaded models.",
 ["pyTMD/interpolate.py", "pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/GOT.py", "pyTMD/io/FES.py"],
 [("nearest-neighbour extrapolation", "pyTMD/interpolate.py:extrapolate, _distance"), ("mask interpolation", "pyTMD/io/*.py extract_constants")],
 [], ["mask and values of returned constants"])

prop("C11", "Interpolators reproduce nodes, are exact for their class and local",
 "Every interpolation method returns the stored value at a grid node, and bilinear/linear interpolation returns the exact convex combination of the four surrounding nodes with invalid nodes excluded (weights renormalised) by the bilinear method and infecting the result in the regular-grid method. Interpolating a complex field equals interpolating its real and imaginary parts, adding or reordering query points does not change any other, and points outside the grid receive the fill value. Nearest selects a node of the enclosing cell that is nearest in grid coordinates.",
 ["inputs"],
 "small grids with integer values x all mask patterns x all query points on a quarter-cell lattice including edges and corners x methods",
 "The interpolation test module is not runnable here and uses a smooth random field compared with a tolerance; corner cells and mask patterns are not enumerated.",
 ["pyTMD/interpolate.py"],
 [("bilinear weights", "pyTMD/interpolate.py:bilinear"), ("regular grid", "pyTMD/interpolate.py:regulargrid"), ("spline", "pyTMD/interpolate.py:spline")],
 [], ["interpolated arrays"])

prop("C12", "The constituent container behaves as an ordered map",
 "After any sequence of additions, updates, removals and lookups, the container holds, in insertion order, exactly one complex array per name, and looking a name up returns the array last stored under it. Reported amplitude and phase reconstruct the stored complex value, and an operation on an absent name fails without changing anything. Iterating, including nested or repeated iteration, visits every (name, value) pair once and does not disturb the container.",
 ["histories"],
 "all operation sequences up to a depth over a few names, including iteration interleaved with lookups",
 "The existing test appends a few fields once and checks lengths; sequences of mixed operations are unbounded.",
 ["pyTMD/io/constituents.py"],
 [("append/update/pop/get/iteration", "pyTMD/io/constituents.py")],
 [("fields", "ordered list of names", "pyTMD/io/constituents.py")],
 ["len, fields, get, amplitude, phase, iteration"])

prop("C13", "A constituent is recognised in any spelling of a file name",
 "The constituent named in a label or file name is recognised whichever letter case it is written in and whatever surrounding text, directories, digits or separators the producers use, and the recognised name is the canonical one that the argument tables know. Names that contain another constituent's name (such as m2 in 2sm2, mu2 or lambda2 abbreviations) are never confused with the shorter name. The constituents distributed by the supported models are all recognised by their canonical names and by the producers' abbreviations, and a label with no constituent in it fails.",
 ["inputs"],
 "all supported constituents x producers' file name templates x letter case",
 "Tests cover the shipped models' file names only.",
 ["pyTMD/io/constituents.py", "pyTMD/io/model.py"],
 [("regex parser and remapping", "pyTMD/io/constituents.py:parse"), ("file parser", "pyTMD/io/model.py:parse_file, parse_constituents")],
 [], ["parsed name"])

prop("C14", "Every named model resolves to complete, consistent files and attributes",
 "Every model named in the database resolves, for each type it supports (elevation, currents), to files inside the given directory, in a known format, with a scale and a nodal-correction convention and with variable names consistent with its type, and every file maps to one distinct constituent where files are per constituent. Adding user databases adds or overrides named models without losing the built-in ones. Missing or unsupported requests fail with an error rather than yielding a model with stale attributes from an earlier lookup.",
 ["configurations", "histories"],
 "all database entries x type x compressed flag x extra databases x lookups in sequence on one object",
 "Tests check a handful of definitions.",
 ["pyTMD/io/model.py", "pyTMD/data/database.json"],
 [("database and path resolution", "pyTMD/io/model.py:DataBase, load_database, elevation, current, pathfinder")],
 [], ["model attributes"])

prop("C15", "Model definitions survive export and import without aliasing",
 "Exporting a model definition to a dictionary or JSON and importing it again yields a model with the same attributes and files, for every database entry and every user definition file. The exported form contains only plain serialisable data and is independent of the model: changing one never changes the other and exporting does not change the model.",
 ["inputs", "histories"],
 "all database entries x elevation/currents x export-import-mutate sequences; JSON definition variants (list, glob, text list, currents dictionary)",
 "Tests read a few definition files; they never export, re-import and compare, nor mutate.",
 ["pyTMD/io/model.py"],
 [("to_dict/from_dict/serialize/from_file", "pyTMD/io/model.py")], [], ["attributes before/after"])

prop("C16", "Model files that are written read back as the same constituents",
 "Writing constituent grids, masks and bathymetry with the package's own model writers and reading the files with the corresponding readers returns the same coordinates, constituent names and order, complex constituents and masks, for every writer, variable type and constituent. Splitting or combining a model on the way does not change them.",
 ["inputs", "programs"],
 "grids x masks x constituent lists (short and long names) x writers (OTIS grid/elevation/transport, ATLAS grid/elevation/transport, FES, GOT) x variable type; reduction of a model to a regional subset",
 "No stable test writes and reads a model file.",
 ["pyTMD/io/OTIS.py", "pyTMD/io/ATLAS.py", "pyTMD/io/FES.py", "pyTMD/io/GOT.py", "scripts/reduce_OTIS_files.py"],
 [("writers", "pyTMD/io/*.py:output_*"), ("readers", "pyTMD/io/*.py:read_*")], [], ["file contents through the readers"])

prop("C17", "Spatial data files round trip and inputs are left unmodified",
 "Writing data with the package's file writers and reading it with the matching reader returns the same variables, values, coordinates, layout, attributes and masked positions for text, netCDF, HDF5, GeoTIFF and parquet, compressed or in memory where supported. Writing does not change the caller's data or attribute dictionaries, so writing again or in another format gives an equally complete file. A file is found whatever the letter case of its name, and a file with a merely similar name is never opened instead.",
 ["inputs", "histories"],
 "formats x layouts (drift, grid, time series) x masks/fill values x attribute dictionaries x sequences of writes",
 "Spatial tests are not in the stable suite except parquet; none repeats a write with the same attributes.",
 ["pyTMD/spatial.py"],
 [("readers and writers", "pyTMD/spatial.py:from_*, to_*"), ("case-insensitive lookup", "pyTMD/spatial.py:case_insensitive_filename")],
 [], ["read-back dictionary", "caller's attributes after a write"])

prop("C18", "Coordinate frame conversions are mutually inverse and elementwise",
 "Converting a position between geodetic, Cartesian, spherical, local east-north-up, horizontal, ellipsoidal-datum and degree-minute-second representations along any path and back returns the original position, on every part of the ellipsoid including poles, equator, antimeridian and zero or negative angles. A conversion treats every element independently: the result for a point does not depend on the other points in the array or on whether it is given as a scalar or in an array. Inputs are not modified.",
 ["inputs"],
 "all paths between frames up to a length x special and random positions x all the available inversion methods x batch compositions",
 "Spatial tests are not runnable here and convert a few random points once.",
 ["pyTMD/spatial.py"],
 [("frame conversions", "pyTMD/spatial.py:to_cartesian,to_sphere,to_geodetic,to_ENU,from_ENU,to_horizontal,to_dms,from_dms,convert_ellipsoid,wrap_longitudes")],
 [], ["coordinates after a path"])

prop("C19", "Model map projections are inverse pairs with the right direction",
 "For every model projection, projecting longitude and latitude forward and back returns the original point; models declared geographic leave coordinates unchanged and report themselves geographic, and projected ones do not. Points given in a user projection are transformed to longitude and latitude consistently however that projection is given (code, text, object). A projection object used for one model does not affect later conversions for another.",
 ["inputs", "histories"],
 "all named projections and EPSG inputs x directions x points x sequences of transforms on one object",
 "Tests check four models forward/back.",
 ["pyTMD/crs.py"],
 [("projection dispatch", "pyTMD/crs.py:convert, get, transform, from_input")], [], ["transformed coordinates, flags"])

prop("C20", "Harmonic analysis and current ellipses invert synthesis",
 "Solving a noise-free series synthesised from constituents that are resolvable over its length returns those constituents' amplitudes and phases, whichever solver, order of constituents or nodal convention is chosen consistently. The tidal ellipse of zonal and meridional current constituents has parameters that convert back to the same constituents, with semi-major not smaller than the magnitude of semi-minor, inclination in [0,180) and phase in [0,360). Missing observations are ignored rather than treated as data.",
 ["inputs", "configurations"],
 "constituent sets x amplitudes/phases x solvers x conventions x missing-data patterns; all ellipse orientations and rotation senses",
 "The harmonic solver and ellipse are tested with downloaded models only.",
 ["pyTMD/solve/constants.py", "pyTMD/ellipse.py", "pyTMD/predict.py"],
 [("design matrix and solvers", "pyTMD/solve/constants.py"), ("ellipse transforms", "pyTMD/ellipse.py")], [], ["amplitude/phase; ellipse parameters"])

prop("C21", "Downloads are checksum-gated and never leave a wrong local file",
 "A remote file is fetched only when the given checksum differs from the local file's, and after a successful fetch the local file holds exactly the remote bytes with the remote modification time. If a fetch fails at any point an existing local copy stays intact, and an error is raised rather than partial data presented as complete. Local names, URL splitting and hashes are independent of how the location is given (text, list, path, stream).",
 ["fault_sequences", "histories"],
 "sequences of fetches with server changes and failures before, during and after the transfer (HTTP and FTP) x hash matches/mismatches",
 "Download tests need the network; faults at each point of a transfer are not injected.",
 ["pyTMD/utilities.py"],
 [("HTTP and FTP fetch, hashing", "pyTMD/utilities.py:from_http, from_ftp, from_json, get_hash, url_split, copy")],
 [("local file", "last complete copy", "pyTMD/utilities.py:from_http")], ["local file contents and mtime, return value, exception"])

prop("C22", "Solid-earth, pole and equilibrium tides decompose per point and time",
 "The long-period equilibrium, load pole, ocean pole and solid earth tide functions give, for each location and time in any layout, the value for that location and time alone, so gridding, batching, splitting or reordering inputs does not change any element. Switching the permanent-tide convention changes the solid earth tide by a time-independent amount that is zero-mean consistent with latitude only. Displacements are in the frame and units requested and each location's fill stays in place.",
 ["inputs", "configurations"],
 "layouts x batches x permanent tide systems x reference ellipsoids x times",
 "Tests evaluate one layout with fixed inputs and compare with frozen numbers.",
 ["pyTMD/compute.py", "pyTMD/predict.py"],
 [("drivers", "pyTMD/compute.py:LPET_elevations, LPT_displacements, OPT_displacements, SET_displacements"), ("predictors", "pyTMD/predict.py:equilibrium_tide, load_pole_tide, ocean_pole_tide, solid_earth_tide")],
 [], ["driver outputs"])

prop("C23", "Domain checks agree with where predictions exist",
 "The functions that tell whether points are within a model's domain return true exactly for the points at which the model's constituents are valid, in the shape of the input, for every model format, interpolation method and input projection. Large and scattered point sets get the same answers as asking one point at a time.",
 ["inputs", "configurations"],
 "formats x land masks x points (scalar, vector, grid) x projections x methods",
 "The mask function has no runnable test.",
 ["pyTMD/compute.py", "pyTMD/io/model.py"],
 [("mask driver", "pyTMD/compute.py:tide_masks")], [], ["returned boolean mask"])

prop("C24", "Time handling: equal instants give equal results",
 "The same instant expressed as days since another epoch, in another time standard with the proper leap-second offset, as a calendar date, date array or with units text, converts to the same internal time, and the conversions invert each other. Deprecated entry points keep giving the results of their replacements. Dates before, at and after leap seconds and century boundaries are handled alike.",
 ["inputs", "configurations"],
 "epochs x units x time standards x calendar instants around leap seconds, years 1858..2100 x public and deprecated entry points",
 "The time tests cover random samples of a few conversions from the external dependency.",
 ["pyTMD/time.py", "pyTMD/utilities.py", "pyTMD/eop.py", "pyTMD/astro.py"],
 [("time wrappers", "pyTMD/time.py"), ("time text parsing", "pyTMD/utilities.py:get_unix_time, isoformat")],
 [], ["converted times"])

prop("C25", "Reference ellipsoids have their published parameters",
 "Every named reference ellipsoid has its published semi-major axis, flattening, gravitational constant and rotation rate, under any letter case and in the units asked for, and explicitly given parameters replace them. The derived geometric and gravimetric quantities satisfy the relations that define them (axes, eccentricities, equal-volume radius, normal gravity from equator to pole and with height, oblateness) and agree with the published values.",
 ["inputs", "configurations"],
 "all named ellipsoids x units x letter case x user-defined parameters",
 "Tests look at two attributes of one ellipsoid.",
 ["pyTMD/crs.py"],
 [("datum", "pyTMD/crs.py:datum")], [], ["attributes of the datum object"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
